"""Value check of SIR functions against the reference model (C01-C05)."""
import numpy as np
from vf import gen, oracle, work, harness

def targets(fns):
    return ["py_" + f for f in fns] + ["oct_" + f for f in fns]

def expected(P):
    try:
        return oracle.expected_columns(P)
    except Exception as e:       # the generator made something the model cannot take
        return repr(e)

def check(ck, R, cases, rtol=1e-9, label=""):
    """cases: list of (P, env). Runs Python and Octave, compares every column with the model."""
    pyc = [gen.py_sir(P, env=e) for P, e in cases]
    occ = [gen.oct_sir(P, env=e) for P, e in cases]
    rp, ro = harness.both(R, pyc, occ)
    exp = harness.pmap(expected, [P for P, _ in cases])
    for i, (P, env) in enumerate(cases):
        cols = exp[i]
        if isinstance(cols, str):
            ck.skip("model: " + cols); continue
        inside = sum(int(c.hit.any()) for c in cols)
        for lang, r, c in (("py", rp[i], pyc[i]), ("oct", ro[i], occ[i])):
            judge(ck, P, env, cols, lang, r, c, rtol, inside)
        ck.sample(dict(P, env=env, peak=[float(np.abs(c.h).max()) for c in cols[:3]]))
    return rp, ro, exp

def judge(ck, P, env, cols, lang, r, c, rtol=1e-9, inside=1):
    fn = P["fn"]
    if r.kind == "skipped":
        ck.skip("worker skipped"); return
    ck.saw((lang, harness.asum(P["Ro"]), repr(P), repr(env)), nontrivial=inside > 0)
    ck.count("%s %s" % (fn, lang))
    out_c = sum(x.certain_out for x in cols); out_m = sum(x.maybe_out for x in cols)
    key = "%s:%s" % (fn, lang)
    info = dict(P, env=env)
    if r.kind != "ok":
        if P["err"] in ("stop", "<default>") and out_c + out_m > 0 and r.kind == "exc":
            ck.count("stopped (some contribution outside)")
            return
        ck.violate(key + ":" + r.kind, harness.show(r), lang, c, R_flavour(), info)
        return
    out = np.asarray(r.out)
    if out.shape != (int(P["s"][3]), len(P["Ro"])):
        ck.violate(key + ":shape", "shape %s" % (out.shape,), lang, c, R_flavour(), info); return
    for n, col in enumerate(cols):
        m = oracle.cmp_col(out[:, n], col, rtol)
        ck.count("columns judged")
        ck.count("contributions in the model", int(col.n))
        if m:
            ck.violate(key + ":value", "column %d of %d: %s" % (n, len(cols), m), lang, c, R_flavour(), info)
            return
    ck.count("samples judged", out.size)

FLAVOUR = "rel"
def R_flavour():
    return FLAVOUR

def plan(ck, fn, rng, nfit, nout, nbig, nsmall, **kw):
    L = []
    for i in range(nfit):
        L.append((gen.gen_sir(rng, fn, fit=True, err=str(rng.choice(["stop", "stop", "warn", "ignore", "<default>"])) , **kw), gen.nthreads_env(rng)))
    for i in range(nout):
        L.append((gen.gen_sir(rng, fn, fit=False, err=str(rng.choice(["ignore", "ignore", "warn"])), **kw), gen.nthreads_env(rng)))
    for i in range(nbig):
        P = gen.gen_sir(rng, fn, no=int(rng.integers(40, 400)), fit=bool(rng.random() < .5), err="ignore", **kw)
        while cells(P) * len(P["Ro"]) > 60000:
            k = max(1, len(P["Ro"]) // 2)
            if k < 20:
                break
            P["Ro"] = P["Ro"][:k]
            if np.size(P["delay"]) > 1:
                d = P["delay"].ravel()[:k]
                P["delay"] = d.reshape(-1, 1) if P["delay"].shape[1] == 1 else d.reshape(1, -1)
        L.append((P, gen.nthreads_env(rng)))
    for i in range(nsmall):
        L.append((gen.gen_sir(rng, fn, fit=False, nt=int(rng.choice([1, 2, 3, 4, 5])), err=str(rng.choice(["ignore", "warn"])), **kw), gen.nthreads_env(rng)))
    for P, e in L:
        if P["err"] == "<default>":
            pass
    return L

def lossy(rng, fn, n, **kw):
    """cases in an attenuating medium, small enough for the filter model"""
    L = []
    while len(L) < n:
        fit = bool(rng.random() < .6)
        P = gen.gen_sir(rng, fn, alpha=float(rng.choice([.1, .5, 1, 2, 5])), fit=fit, nt=None if fit else int(rng.choice([5, 16, 31, 64, 100])), no=int(rng.choice([1, 2, 3])),
                        err=str(rng.choice(["stop", "warn", "ignore", "<default>"] if fit else ["warn", "ignore"])), **kw)
        if cells(P) * len(P["Ro"]) * P["s"][3] < 4e5:
            L.append((P, gen.nthreads_env(rng)))
    return L

def cells(P):
    from vf import oracle
    if P["fn"] == "dream_arr_annu":
        return sum(oracle.surface("circ", [r], P["s"][0], P["s"][1])[0].size for r in np.asarray(P["G"]).ravel() if r > 0)
    n = oracle.surface(oracle.KIND[P["fn"]], P["geom"], P["s"][0], P["s"][1])[0].size
    return n * (len(P["G"]) if P["fn"] in gen.ARR3 else 1)
