"""Attenuating media: model comparison, zero-frequency gain, limits, stand-alone response."""
import numpy as np
from vf import gen, oracle, work, harness
from . import sirval

RULE = ("one evaluation = one lossy call compared with the numpy filter model (and, for transducers, its column sums with the lossless in-window sum), one pair of calls for the "
        "zero and vanishing coefficient, or one dream_att column; non-trivial when a contribution lies in the window; distinct by arguments, language and environment")

def cases_for(ck, fn, m):
    rng = ck.subrng(fn)
    L = []
    for i in range(28 * m):
        fit = bool(rng.random() < .6)
        a = float(rng.choice([1e-6, .01, .1, .5, 1, 2.2, 5, 20])) * (1 if rng.random() < .5 else gen.U(rng, .5, 1.5))
        nt = None if rng.random() < .4 else int(rng.choice([1, 2, 3, 5, 8, 13, 16, 31, 32, 64, 97, 100, 127, 128, 150]))
        if fit and nt is not None and nt < 24:
            fit = False
        for _ in range(20):
            P = gen.gen_sir(rng, fn, alpha=a, fit=fit, nt=nt, no=gen.batch(rng, [1, 2, 3, 5, 9, 13], .05),
                            err=str(rng.choice(["stop", "warn", "ignore", "<default>"] if fit else ["warn", "ignore"])))
            if sirval.cells(P) * len(P["Ro"]) * P["s"][3] < 4e6:
                break
        L.append((P, gen.nthreads_env(rng)))
    return L

def run():
    ck = harness.Check("C05", RULE, ["cells within rounding of a sample or aperture boundary may fall either way", "the dispersion constant 0.95 and 8.686 dB/Np are taken from the code's cited sources"])
    R = work.Runner("rel", sirval.targets(gen.ALLSIR) + ["oct_dream_att"])
    m = 12 if ck.thorough else 4
    cases = []
    for fn in gen.ALLSIR:
        cases += cases_for(ck, fn, m)
    order = ck.rng.permutation(len(cases))
    cases = [cases[i] for i in order]
    rp, ro, exp = sirval.check(ck, R, cases, rtol=1e-8)
    # zero-frequency gain is one: column sums equal the lossless in-window sum
    for i, (P, e) in enumerate(cases):
        if isinstance(exp[i], str) or P["fn"] == "dream_arr_annu":
            continue
        for lang, r in (("py", rp[i]), ("oct", ro[i])):
            if r.kind != "ok" or np.shape(r.out) != (int(P["s"][3]), len(P["Ro"])):
                continue
            for n, c in enumerate(exp[i]):
                Q = dict(P, m=(P["m"][0], P["m"][1], 0.0))
                c0 = oracle.column(Q, n)
                d = abs(float(np.sum(r.out[:, n])) - float(np.sum(c0.h)))
                tol = float(np.sum(c0.slack)) + 1e-9 * max(c.scale, 1e-300) * max(1, P["s"][3])
                ck.count("column sums compared")
                if not d <= tol:
                    ck.violate("%s:%s:dc" % (P["fn"], lang), "column %d sums to %.12g, lossless in-window sum %.12g" % (n, np.sum(r.out[:, n]), np.sum(c0.h)), lang, gen.py_sir(P, env=e) if lang == "py" else gen.oct_sir(P, env=e), "rel", P)
                    break
    # alpha -> 0 and alpha = 0
    sub = []
    for fn in gen.ALLSIR:
        sub += [c for c in cases if c[0]["fn"] == fn][:6 * m]
    for lang, mk in (("py", gen.py_sir), ("oct", gen.oct_sir)):
        mk2 = lambda P, a, e: mk(dict(P, m=(P["m"][0], P["m"][1], a)), env=e)
        a = R.run(lang, [mk2(P, 0.0, e) for P, e in sub])
        b = R.run(lang, [mk2(P, 1e-13, e) for P, e in sub])
        for (P, e), x, y in zip(sub, a, b):
            if "skipped" in (x.kind, y.kind):
                ck.skip("skipped"); continue
            ck.saw(("lim", lang, repr(P)), nontrivial=x.kind == "ok" and bool(np.any(x.out)))
            if x.kind != y.kind:
                ck.violate("%s:%s:limit-kind" % (P["fn"], lang), "alpha=0: %s, alpha=1e-13: %s" % (harness.show(x), harness.show(y)), lang, mk2(P, 0.0, e), "rel", P)
            elif x.kind == "ok":
                sc = max(float(np.abs(x.out).sum(0).max()), 1e-300)
                if P["fn"] == "dream_arr_annu":
                    sc = max(sc, max(c.scale for c in exp_cols(P)))
                if np.shape(x.out) != np.shape(y.out) or not np.all(np.abs(x.out - y.out) <= 1e-6 * sc):
                    ck.violate("%s:%s:limit" % (P["fn"], lang), "alpha=1e-13 differs from alpha=0 by %g (scale %g)" % (np.abs(x.out - y.out).max(), sc), lang, mk2(P, 1e-13, e), "rel", P)
    att(ck, R, 150 * m)
    return ck.finish()

def exp_cols(P):
    return oracle.expected_columns(dict(P, m=(P["m"][0], P["m"][1], 0.0)), cols=[0]) if False else oracle.expected_columns(dict(P, m=(P["m"][0], P["m"][1], 0.0)))

def att(ck, R, n):
    rng = ck.subrng("att")
    cs = []
    for i in range(n):
        no = gen.batch(rng, list(range(1, 12)), .05)
        nt = int(rng.choice([1, 2, 3, 4, 5, 7, 16, 31, 32, 100, 127, 128, 255, 300]))
        dt = gen.U(rng, .005, .1); cp = gen.U(rng, 300, 6000); al = float(rng.choice([0.0, .1, 1, 2.2, 5])) * gen.U(rng, .5, 1.5)
        Ro = np.asfortranarray(rng.uniform(-30, 30, (no, 3)))
        r = np.sqrt((Ro ** 2).sum(1))
        t = r * 1e3 / cp
        scal = no == 1 or rng.random() < .4
        d = np.array([t.min() - nt * dt * gen.U(rng, 0, .7)]) if scal else t - dt * nt * rng.uniform(0, .9, no)
        cs.append(dict(fn="dream_att", args=[Ro, gen.row(dt, nt), d.reshape(-1, 1), gen.row(cp, al)], env=gen.nthreads_env(rng)))
    res = R.run("oct", cs)
    for c, x in zip(cs, res):
        Ro, s, d, mp = c["args"]
        dt, nt = s[0]; nt = int(nt); cp, al = mp[0]
        if x.kind == "skipped":
            ck.skip("skipped"); continue
        ck.saw(("att", repr(c)))
        if x.kind != "ok" or np.shape(x.out) != (nt, len(Ro)):
            ck.violate("dream_att:" + x.kind, harness.show(x) + str(np.shape(x.out)), "oct", c, "rel", c["args"]); continue
        r = np.sqrt((Ro ** 2).sum(1))
        for n in range(len(Ro)):
            q = (r[n] * 1e3 / cp - d.ravel()[0 if d.size == 1 else n]) / dt + 1
            cand = {int(np.trunc(q * (1 + k * 1e-12) + k * 1e-9)) for k in (-1, 0, 1)}
            ok = False
            for it in cand:
                h = oracle.att_time(oracle.att_spectrum(r[n:n + 1], np.array([it]), al, dt, nt)[0], nt)
                if np.all(np.abs(h - x.out[:, n]) <= 1e-7):
                    ok = True
            ck.count("dream_att columns")
            if not ok or abs(x.out[:, n].sum() - 1) > 1e-7:
                ck.violate("dream_att:value", "column %d differs by %g (sum %g)" % (n, np.abs(h - x.out[:, n]).max(), x.out[:, n].sum()), "oct", c, "rel", c["args"]); break
