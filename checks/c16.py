import numpy as np
from vf import gen, work, harness, dasm

RULE = ("one evaluation = one das call (Python/Octave, single/double) compared pixel by pixel with the numpy delay-and-sum; non-trivial when at least one transmit/receive pair "
        "hits a data sample; distinct by arguments, language and environment")

def run():
    ck = harness.Check("C16", RULE, ["pairs whose travel time is within rounding of a sample boundary may read either sample"])
    R = work.Runner("rel", ["py_das", "py_das_f", "oct_das"])
    n = 2200 if ck.thorough else 360
    cases = []
    for m in dasm.METHODS:
        for prec in "df":
            rng = ck.subrng(m, prec)
            for i in range(n):
                fit = rng.random() < .6
                P = dasm.gen_das(rng, m, prec, fit=fit, err=str(rng.choice(["stop", "warn", "ignore", "<default>"] if fit else ["warn", "ignore", "ignore"])))
                if m == "rca_coltx" and rng.random() < .3:
                    P["mstr"] = "rca"
                cases.append((P, gen.nthreads_env(rng)))
            for i in range(n // 60):    # long data
                cases.append((dasm.gen_das(rng, m, prec, long=True, err="ignore"), gen.nthreads_env(rng)))
            for i in range(n // 20):    # larger
                P = dasm.gen_das(rng, m, prec, no=int(rng.integers(200, 2000)), fit=True, nt_el=int(rng.integers(5, 24)), nr_el=int(rng.integers(5, 24)))
                cases.append((P, gen.nthreads_env(rng)))
    cases = [cases[i] for i in ck.rng.permutation(len(cases))]
    pyc = [dasm.py_das(P, e) for P, e in cases]; occ = [dasm.oct_das(P, e) for P, e in cases]
    # SAFT: the receive array is not used; Octave also switches to SAFT when it is empty
    rng = ck.subrng("gr")
    for i, (P, e) in enumerate(cases):
        if P["method"] == "saft":
            if rng.random() < .3:
                G = np.asfortranarray(rng.uniform(-1, 1, (int(rng.integers(1, 5)), 3)).astype(dasm.dtp(P)))
                occ[i]["args"][2] = G; pyc[i]["args"][2] = G
            elif rng.random() < .3:
                occ[i]["args"][7] = str(rng.choice(["tfm", "tfm", "rca_coltx", "rca_rowtx", "saft"]))
                occ[i]["args"][2] = np.zeros((0, 0), dasm.dtp(P))
    rp, ro = harness.both(R, pyc, occ)
    exp = harness.pmap(dasm.expected, [P for P, e in cases])
    for i, (P, e) in enumerate(cases):
        E = exp[i]
        for lang, r, c in (("py", rp[i], pyc[i]), ("oct", ro[i], occ[i])):
            if r.kind == "skipped":
                ck.skip("skipped"); continue
            ck.saw((lang, i, repr(P)), nontrivial=E.inside > 0)
            ck.count("%s %s %s" % (P["method"], P["prec"], lang)); ck.count("pairs", E.pairs); ck.count("ambiguous pairs", E.amb); ck.count("pixels", E.h.size)
            key = "%s:%s:%s:" % (P["method"], P["prec"], lang)
            info = {k: v for k, v in P.items() if k != "Y"}
            if r.kind != "ok":
                if r.kind == "exc" and P["err"] in ("stop", "<default>") and (E.certain_out.sum() + E.maybe_out.sum()) > 0:
                    ck.count("stopped"); continue
                ck.violate(key + r.kind, harness.show(r), lang, c, "rel", info); continue
            m = dasm.cmp(r.out, E)
            if m:
                ck.violate(key + "value", m, lang, c, "rel", info)
            if np.asarray(r.out).dtype != dasm.dtp(P):
                ck.violate(key + "type", "result type %s" % np.asarray(r.out).dtype, lang, c, "rel", info)
        ck.sample({k: v for k, v in P.items() if k != "Y"})
    return ck.finish()
