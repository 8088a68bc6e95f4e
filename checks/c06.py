"""Out-of-window policy: window predicate of the model against error, stdout, status and result."""
import numpy as np
from vf import gen, oracle, work, harness, dasm
from . import sirval

RULE = ("one evaluation = one call under one error policy (stop, warn, ignore, default) judged on error, printed text, status output and result against the window predicate of the "
        "reference model; non-trivial when the predicate is decided; distinct by arguments, policy, language and environment")
POL = ["stop", "warn", "ignore", "<default>"]

def push(rng, P, how):
    """move exactly one point, or one element, out of a fitting window"""
    dt, nt = P["s"][2], int(P["s"][3])
    k = None
    if how == "point":
        no = len(P["Ro"])
        d = np.asarray(P["delay"], float).ravel()
        if d.size == 1:
            d = np.full(no, d[0])
        k = int(rng.choice([0, no - 1, rng.integers(no)]))
        d = d.copy()
        d[k] += (1 if rng.random() < .5 else -1) * dt * float(rng.choice([nt + 2, nt * .6, 3, 30]))
        P["delay"] = d.reshape(-1, 1) if rng.random() < .5 else d.reshape(1, -1)
    else:
        ne = len(np.asarray(P["foc"][1]).ravel())
        f = np.asarray(P["foc"][1], float).ravel().copy()
        k = int(rng.choice([0, ne - 1, rng.integers(ne)]))
        f[k] += (1 if rng.random() < .5 else -1) * dt * float(rng.choice([nt + 2, nt * .7, 40]))
        P["foc"] = ("ud", f.reshape(np.shape(P["foc"][1])))
    return P

def edge(rng, P):
    """only the last, or the first, contribution of one point is outside, by one sample"""
    if P["fn"] == "dream_arr_annu" and (P["foc"][0] != "off" or len(P["Ro"]) == 0):
        P["foc"] = ("off", gen.row(0.0))
    dt, nt = P["s"][2], int(P["s"][3])
    no = len(P["Ro"])
    d = np.asarray(P["delay"], float).ravel()
    d = np.full(no, d[0]) if d.size == 1 else d.copy()
    k = int(rng.choice([0, no - 1, rng.integers(no)]))
    lo, hi = gen.arrival_range(dict(P, Ro=P["Ro"][k:k + 1]))
    d[k] = hi[0] - (nt + gen.U(rng, -.4, .4)) * dt if rng.random() < .6 else lo[0] + (1 + gen.U(rng, -.4, .4)) * dt
    P["delay"] = d.reshape(-1, 1) if rng.random() < .5 else d.reshape(1, -1)
    return P

def sircases(ck, fn, m):
    rng = ck.subrng(fn)
    L = []
    for i in range(24 * m):
        how = ["fit", "out", "point", "edge", "element", "small", "edge", "point"][i % 8]
        alpha = 0.0 if rng.random() < .7 else gen.U(rng, .1, 5)
        if how == "element" and fn not in gen.ARR3:
            how = "point"
        no = gen.batch(rng, [1, 2, 3, 5, 8, 9, 17])
        if how == "small":
            P = gen.gen_sir(rng, fn, alpha=alpha, fit=False, no=no, nt=int(rng.choice([1, 2, 3, 5])))
        elif how == "out":
            P = gen.gen_sir(rng, fn, alpha=alpha, fit=False, no=no)
        else:
            P = gen.gen_sir(rng, fn, alpha=alpha, fit=True, no=no, foc="ud" if how == "element" else None,
                            wild=0.0 if rng.random() < .5 else .25)
            if how == "edge":
                edge(rng, P)
            elif how != "fit":
                push(rng, P, how)
        if alpha and sirval.cells(P) * len(P["Ro"]) * P["s"][3] > 4e6:
            P["m"] = (P["m"][0], P["m"][1], 0.0)
        L.append((P, gen.nthreads_env(rng), how))
    return L

def outputs(rng, cs):
    """one output only, in part of the Octave calls: what is printed must not depend on it"""
    return [dict(c, nout=1) if rng.random() < .35 else c for c in cs]

def judge(ck, key, lang, pol, r, c, out, info, word):
    """out: True/False; word: what the warning must mention"""
    eff = "stop" if pol == "<default>" else pol
    V = lambda what, msg: ck.violate("%s:%s:%s:%s" % (key, lang, pol, what), msg, lang, c, "rel", info)
    if eff == "stop" and out:
        if r.kind == "ok":
            V("no-error", "contributions fall outside the window but the call returned a result (status %s)" % (r.outs[1:],))
        elif r.kind != "exc":
            V(r.kind, harness.show(r))
        return
    if r.kind != "ok":
        V(r.kind, ("something falls outside and the policy is %s, but " % pol if out else "nothing falls outside, but ") + harness.show(r))
        return
    txt = (r.stdout or "").strip()
    if eff == "warn" and out:
        if "arning" not in txt:
            V("no-warning", "contributions fall outside the window, no warning printed (stdout %r)" % txt[:200])
    elif txt:
        V("noise", "unexpected output %r" % txt[:300])
    if lang == "oct" and c["nout"] == 2:
        st = float(np.ravel(r.outs[1])[0]) if np.size(r.outs[1]) else None
        if st is None or (st != 0) != out:
            V("status", "error status %s although contributions %s the window" % (st, "fall outside" if out else "all fall inside"))

def group(ck, key, lang, rs, cs, out, info, word, valcmp):
    ref = None
    for pol, r, c in zip(POL, rs, cs):
        if r.kind == "skipped":
            ck.skip("skipped"); continue
        ck.saw((key, lang, pol, repr(info)), nontrivial=True)
        ck.count("%s %s" % ("outside" if out else "inside", pol))
        judge(ck, key, lang, pol, r, c, out, info, word)
        if r.kind == "ok":
            if ref is None:
                ref = r.out
                m = valcmp(r.out)
                if m:
                    ck.violate("%s:%s:%s:value" % (key, lang, pol), m, lang, c, "rel", info)
            elif not harness.same(ref, r.out):
                ck.violate("%s:%s:%s:differs" % (key, lang, pol), "in-window part differs between policies by %g" % np.max(np.abs(np.asarray(ref) - np.asarray(r.out))) if np.shape(ref) == np.shape(r.out) else "shape differs between policies", lang, c, "rel", info)

def run():
    ck = harness.Check("C06", RULE, ["calls in which only contributions within rounding of the window's ends could be outside are not judged",
                                     "samples of an annular ring moved outside by the ring's focusing delay are not counted as contributions",
                                     "Python has no status output: under 'ignore' only silence and the result are observed there"])
    R = work.Runner("rel", sirval.targets(gen.ALLSIR) + ["py_das", "py_das_f", "oct_das"])
    m = 40 if ck.thorough else 6
    S = []
    for fn in gen.ALLSIR:
        S += sircases(ck, fn, m)
    S = [S[i] for i in ck.rng.permutation(len(S))]
    exp = harness.pmap(sirval.expected, [P for P, e, h in S])
    keep = []
    for (P, e, h), cols in zip(S, exp):
        if isinstance(cols, str):
            ck.skip("model"); continue
        co, mo = sum(c.certain_out for c in cols), sum(c.maybe_out for c in cols)
        if co == 0 and mo > 0:
            ck.count("undecided, not judged"); continue
        keep.append((P, e, h, cols, co > 0))
        ck.count("how: " + h)
    pyc = [gen.py_sir(P, env=e, err=p) for P, e, h, c, o in keep for p in POL]
    occ = outputs(ck.subrng("nout", 1), [gen.oct_sir(P, env=e, err=p) for P, e, h, c, o in keep for p in POL])
    rp, ro = harness.both(R, pyc, occ)
    for i, (P, e, h, cols, out) in enumerate(keep):
        def vc(y):
            y = np.asarray(y)
            if y.shape != (int(P["s"][3]), len(P["Ro"])):
                return "shape %s" % (y.shape,)
            for n, c in enumerate(cols):
                x = oracle.cmp_col(y[:, n], c, 1e-8)
                if x:
                    return "column %d: %s" % (n, x)
        for lang, rr, cc in (("py", rp, pyc), ("oct", ro, occ)):
            group(ck, P["fn"], lang, rr[4 * i:4 * i + 4], cc[4 * i:4 * i + 4], out, dict(P, env=e, how=h), "SIR", vc)
        ck.sample(dict(P, env=e, how=h, outside=bool(out)))
    # beamforming
    D = []
    for meth in dasm.METHODS:
        for prec in "df":
            rng = ck.subrng(meth, prec)
            for i in range(16 * m):
                P = dasm.gen_das(rng, meth, prec, fit=bool(i % 2), no=gen.batch(rng, [1, 2, 3, 5, 8, 9, 17]))
                if i % 4 == 1:      # one point only
                    no = len(P["Ro"])
                    d = np.asarray(P["delay"], float).ravel()
                    d = np.full(no, d[0]) if d.size == 1 else d.copy()
                    k = int(rng.choice([0, no - 1, rng.integers(no)]))
                    if i % 8 == 1:
                        d[k] += P["dt"] * P["alen"] * float(rng.choice([1.2, -2.5, .5]))
                    else:       # one sample only
                        legs = 2 if meth == "saft" else 1
                        T = dasm.times(P).reshape(no, -1)[k]
                        d[k] = (P["dt"] * (P["alen"] + gen.U(rng, .2, .8)) - T.max()) / legs if rng.random() < .6 else (P["dt"] * -gen.U(rng, 1.2, 1.8) - T.min()) / legs
                    P["delay"] = d.reshape(-1, 1).astype(dasm.dtp(P))
                D.append((P, gen.nthreads_env(rng)))
    exp = harness.pmap(dasm.expected, [P for P, e in D])
    keep = []
    for (P, e), E in zip(D, exp):
        co, mo = int(E.certain_out.sum()), int(E.maybe_out.sum())
        if co == 0 and mo:
            ck.count("undecided, not judged"); continue
        keep.append((P, e, E, co > 0))
    pyc = [dasm.py_das(P, e, p) for P, e, E, o in keep for p in POL]
    occ = outputs(ck.subrng("nout", 2), [dasm.oct_das(P, e, p) for P, e, E, o in keep for p in POL])
    rp, ro = harness.both(R, pyc, occ)
    for i, (P, e, E, out) in enumerate(keep):
        info = {k: v for k, v in P.items() if k != "Y"}
        for lang, rr, cc in (("py", rp, pyc), ("oct", ro, occ)):
            group(ck, "das:%s:%s" % (P["method"], P["prec"]), lang, rr[4 * i:4 * i + 4], cc[4 * i:4 * i + 4], out, dict(info, env=e), "DAS", lambda y: dasm.cmp(y, E))
    return ck.finish()
