"""Convolution functions against direct convolution in extended precision."""
import numpy as np
from vf import gen, calls, work, harness
from vf.gen import row, F, U

RULE = ("one evaluation = one call whose every output sample is compared with a direct convolution computed in extended precision (integer data and direct convolution: exactly; otherwise to a small "
        "multiple of the rounding of the column's own operands); non-trivial when the expected result has a non-zero sample; distinct by function, language, sizes, options and data")
LD = np.longdouble

def dconv(a, b):
    """full linear convolution in extended precision"""
    a, b = np.asarray(a, LD).ravel(), np.asarray(b, LD).ravel()
    if a.size < b.size:
        a, b = b, a
    y = np.zeros(a.size + b.size - 1, LD)
    for k in range(b.size):
        y[k:k + a.size] += b[k] * a
    return y

def isvec(B):
    return min(B.shape) == 1

def expected(fn, A, B):
    """-> result, per-column scale of the rounding"""
    if fn == "sum_fftconv":
        M, n, L = A.shape
        K = B.shape[0]
        Y = np.zeros((M + K - 1, n), LD); sc = np.zeros(n)
        for j in range(n):
            for l in range(L):
                Y[:, j] += dconv(A[:, j, l], B[:, l])
                sc[j] += np.linalg.norm(A[:, j, l]) * np.linalg.norm(B[:, l])
        return Y / LD(M + K - 1), sc / (M + K - 1)
    n = A.shape[1]
    cols = [(A[:, j], B.ravel() if isvec(B) else B[:, j]) for j in range(n)]
    Y = np.array([dconv(a, b) for a, b in cols]).T
    return Y, np.array([np.linalg.norm(a) * np.linalg.norm(b) for a, b in cols])

LENS = [1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 53, 64, 97, 100, 128, 131, 255, 256, 257, 300]
def data(rng, *shape):
    t = rng.random()
    x = rng.standard_normal(shape)
    if t < .25:
        x = np.rint(x * 20)
    elif t < .35:
        x = np.zeros(shape); x.ravel()[rng.integers(0, x.size, max(1, x.size // 4))] = 1.0
    elif t < .5:
        x = x * 10.0 ** rng.uniform(-6, 6, (1,) + shape[1:])      # columns of very different size
    elif t < .6:
        x = x + 1000.0
    elif t < .72:
        x = x * 10.0 ** rng.uniform(-30, 30)
    elif t < .82:     # silence: whole columns, the beginning or the end
        k = int(rng.integers(3))
        if k == 0 and len(shape) > 1: x[:, rng.random(shape[1:]) < .5] = 0.0
        elif k == 1: x[:shape[0] // 2] = 0.0
        else: x[shape[0] - shape[0] // 2:] = 0.0
    return F(x)

def gen_case(rng, fn):
    lens = LENS if rng.random() < .7 else list(range(1, 80))
    M, K = int(rng.choice(lens)), int(rng.choice(lens))
    n = int(rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24]))
    t = rng.random()
    if t < .06:
        M, n = int(rng.choice([1000, 1023, 2049, 4097])), min(n, 3)
        if rng.random() < .4: M, K = K, M
    elif t < .12:
        M, K, n = min(M, 17), min(K, 17), int(rng.choice([33, 64, 65, 100, 257]))
    if fn == "sum_fftconv":
        L = int(rng.choice([2, 3, 4, 5, 9])) if n > 9 or rng.random() < .9 else int(rng.choice([17, 33, 64, 65, 130]))
        B = data(rng, min(K, 131), L)
        if rng.random() < .15: B[:, rng.random(L) < .5] = 0.0
        return [data(rng, min(M, 131), n, L), B]
    A = data(rng, M, n)
    if A.size == 1 and rng.random() < .7:
        A = data(rng, M, 3); n = 3
    if rng.random() < .35 or K == 1:
        B = data(rng, K, 1) if rng.random() < .6 else data(rng, 1, K)
    else:
        B = data(rng, K, n)
    args = [A, B]
    if fn == "fftconv_ola":
        c = [1, 2, A.shape[0], max(1, A.shape[0] - 1), max(1, A.shape[0] // 2), max(1, A.shape[0] // 3), K, int(rng.integers(1, A.shape[0] + 1)), int(rng.integers(1, A.shape[0] + 1))]
        args.append(row(min(int(rng.choice(c)), A.shape[0])))
    return args

def tolerance(fn, A, B, sc, Y):
    L = Y.shape[0]
    eps = np.finfo(float).eps
    if fn == "conv_p":
        if np.all(A == np.rint(A)) and np.all(B == np.rint(B)) and float(np.abs(Y).max()) < 2 ** 50:
            return np.zeros(Y.shape[1])
        return eps * (2 + min(A.shape[0], max(B.shape) if isvec(B) else B.shape[0])) * sc
    return eps * 16 * (2 + np.log2(max(L, 2))) * sc * (1 + np.sqrt(A.shape[0]) if fn == "fftconv_ola" else 1)

def run():
    ck = harness.Check("C14", RULE, ["sum_fftconv returns the sum divided by the transform length, as its documentation states"])
    R = work.Runner("rel", calls.targets(calls.CONV))
    m = 900 if ck.thorough else 280
    W = wisdoms(R, ck)
    C = []
    for fn in calls.CONV:
        for i in range(m):
            rng = ck.subrng(fn, i)
            args = gen_case(rng, fn)
            C.append((fn, args, "plain", args, 1))
            env = gen.nthreads_env(rng)
            C[-1] += (env,)
            if fn != "conv_p" and i % 4 == 0:
                C.append((fn, args, "measure", args, 2, env))
            if fn != "conv_p" and i % 4 == 1 and W.get(fn):
                C.append((fn, args, "wisdom", args + [W[fn]], 1, env))
            if fn == "fftconv_p":
                C.append((fn, args, "python", args, 0, env))
    oc = [c for c in C if c[2] != "python"]; pc = [c for c in C if c[2] == "python"]
    pr, orr = harness.both(R, [dict(mod=c[0], fn=c[0], args=c[3], env=c[5]) for c in pc], [dict(fn=c[0], args=c[3], nout=c[4], env=c[5]) for c in oc])
    exp = {}
    for c, E in zip(oc, harness.pmap(lambda c: expected(c[0], c[1][0], c[1][1]), oc) if False else map(lambda c: expected(c[0], c[1][0], c[1][1]) if id(c[1]) not in exp else None, oc)):
        if E is not None: exp[id(c[1])] = E
    for lang, cs, rs in (("oct", oc, orr), ("py", pc, pr)):
        for (fn, args, kind, full, nout, env), r in zip(cs, rs):
            judge(ck, fn, lang, kind, args, full, nout, env, r, exp[id(args)])
    return ck.finish()

def wisdoms(R, ck):
    """transform wisdom measured in a session of its own"""
    W = {}
    rng = ck.subrng("wisdom")
    fns = ["fftconv_p", "fftconv_ola", "sum_fftconv"]
    cs = []
    for fn in fns:
        a = [data(rng, 100, 3, 2), data(rng, 32, 2)] if fn == "sum_fftconv" else [data(rng, 100, 3), data(rng, 32, 3)] + ([row(16)] if fn == "fftconv_ola" else [])
        cs.append(dict(fn=fn, args=a, nout=2))
    for fn, r in zip(fns, R.run("oct", cs, par=1)):
        if r.kind == "ok" and isinstance(r.outs[1], str) and r.outs[1]:
            W[fn] = r.outs[1]
        else:
            ck.violate(fn + ":oct:wisdom", "no wisdom returned: %s %s" % (harness.show(r), r.outs and [type(o) for o in r.outs]), "oct", cs[fns.index(fn)])
    return W

def judge(ck, fn, lang, kind, args, full, nout, env, r, E):
    key = "%s:%s:%s:" % (fn, lang, kind)
    case = dict(fn=fn, args=full, nout=nout, env=env) if lang == "oct" else dict(mod=fn, fn=fn, args=full, env=env)
    info = dict(fn=fn, kind=kind, sizes=[np.shape(a) for a in args], block=float(args[2][0, 0]) if len(args) > 2 else None, env=env)
    if r.kind == "skipped":
        ck.skip("skipped"); return
    if r.kind != "ok":
        ck.violate(key + r.kind, harness.show(r), lang, case, info=info); return
    Y, sc = E
    y = np.asarray(r.out)
    ck.saw((key, harness.asum(y), info["block"]), nontrivial=bool(np.any(Y)))
    ck.count("%s %s (%s)" % (fn, kind, lang)); ck.count("samples compared", Y.size)
    if y.shape != Y.shape:
        ck.violate(key + "shape", "shape %s, expected %s" % (y.shape, Y.shape), lang, case, info=info); return
    tol = tolerance(fn, args[0], args[1], sc, Y)
    d = np.abs(y - Y).astype(float)
    if not np.all(np.isfinite(y)) or np.any(d > tol[None, :]):
        k = np.unravel_index(int(np.argmax(np.where(np.isfinite(d), d / np.maximum(tol, 1e-300)[None, :], np.inf))), d.shape)
        ck.violate(key + "value", "sample %d of column %d: %.17g, expected %.17g (tolerance %.2g)" % (k[0], k[1], y[k], float(Y[k]), tol[k[1]]), lang, case, info=info)
    elif np.any(tol > 0):
        w = float(np.max(d[:, tol > 0] / tol[tol > 0])); ck.counts["largest error / tolerance, %"] = max(ck.counts.get("largest error / tolerance, %", 0), int(100 * w))
