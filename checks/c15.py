"""In-place modes of the convolutions, add_p and copy_p: the target before and after against numpy block algebra."""
import numpy as np
from vf import gen, calls, work, harness
from vf.gen import row, F, U
from checks import c14

RULE = ("one evaluation = one call with an output target whose every element (and every other input) is compared before and after with numpy; "
        "non-trivial when at least one element must change, or the call must be rejected leaving the target as it was; distinct by function, mode, sizes and data")

def prior(rng, M, n):
    Y = c14.data(rng, M, n)
    if rng.random() < .2:
        Y.ravel()[rng.integers(0, Y.size, max(1, Y.size // 5))] = rng.choice([np.nan, np.inf, -np.inf, 0.0, -0.0])
    return F(Y)

def rejections(rng, M, N, m, n):
    """ranges of an M x N target that a source of m x n elements must not be put into"""
    L = []
    r1 = int(rng.integers(1, M - m + 2)); c1 = int(rng.integers(1, N - n + 2))
    ok = ((r1, r1 + m - 1), (c1, c1 + n - 1))
    L += [("rows past the end", (M - m + 2, M + 1), ok[1]), ("columns past the end", ok[0], (N - n + 2, N + 1)),
          ("row 0", (0, m - 1), ok[1]), ("column 0", ok[0], (0, n - 1)), ("row -1", (-1, m - 2), ok[1]), ("column -1", ok[0], (-1, n - 2)),
          ("rows too many", (ok[0][0], ok[0][1] + 1), ok[1]), ("columns too many", ok[0], (ok[1][0], ok[1][1] + 1))]
    if m > 1: L += [("rows too few", (r1, r1 + m - 2), ok[1]), ("rows reversed", (r1 + m - 1, r1), ok[1])]
    if n > 1: L += [("columns too few", ok[0], (c1, c1 + n - 2)), ("columns reversed", ok[0], (c1 + n - 1, c1))]
    return L

def run():
    ck = harness.Check("C15", RULE, ["1 x 1 targets are excluded: Octave stores them as scalars, and the functions refuse them"])
    R = work.Runner("rel", calls.targets(calls.CONV + calls.INPLACE))
    m = 700 if ck.thorough else 240
    W = c14.wisdoms(R, ck)
    C = []
    for fn in calls.CONV:
        for i in range(m):
            rng = ck.subrng(fn, i)
            args = c14.gen_case(rng, fn)
            E = c14.expected(fn, args[0], args[1])
            Y0 = prior(rng, *E[0].shape)
            if Y0.size < 2:
                continue
            env = gen.nthreads_env(rng)
            modes = [None] if fn == "sum_fftconv" else [None, "=", "+=", "-="]
            for mode in modes if ck.thorough else [modes[i % len(modes)], modes[(i + 1) % len(modes)]][: len(modes)]:
                for wis in ([None] if fn == "conv_p" or i % 3 else [None, W.get(fn)]):
                    a = list(args) + [F(Y0.copy())] + ([mode] if mode else []) + ([wis] if wis else [])
                    C.append((fn, mode or ("+=" if fn == "sum_fftconv" else "="), args, Y0, E, dict(fn=fn, args=a, nout=0, post=True, env=env), len(args), "wisdom" if wis else "plain"))
            if i % 5 == 0:      # rejected: the target must stay
                for nm, shape in (("one row too many", (Y0.shape[0] + 1, Y0.shape[1])), ("one column too many", (Y0.shape[0], Y0.shape[1] + 1)), ("a row too few", (Y0.shape[0] - 1, Y0.shape[1])), ("transposed", Y0.shape[::-1])):
                    if min(shape) < 1 or np.prod(shape) < 2 or shape == Y0.shape:
                        continue
                    T = prior(rng, *shape)
                    C.append((fn, "reject: " + nm, args, T, None, dict(fn=fn, args=list(args) + [F(T.copy())], nout=0, post=True, env=env), len(args), "reject"))
                if fn != "sum_fftconv":
                    C.append((fn, "reject: mode", args, Y0, None, dict(fn=fn, args=list(args) + [F(Y0.copy()), str(rng.choice(["=+", "==", "+", "*="]))], nout=0, post=True, env=env), len(args), "reject"))
                C.append((fn, "reject: output argument", args, Y0, None, dict(fn=fn, args=list(args) + [F(Y0.copy())] + ([] if fn == "sum_fftconv" else ["+="]), nout=1, post=True, env=env), len(args), "reject"))
    for fn in calls.INPLACE:
        for i in range(m * 2):
            rng = ck.subrng(fn, i)
            M, N = gen.batch(rng, [1, 2, 3, 5, 16, 33]), gen.batch(rng, [1, 2, 3, 7, 8, 9, 17, 40])
            if M * N < 2: M = 4
            mm, nn = (M if rng.random() < .25 else int(rng.integers(1, M + 1))), (N if rng.random() < .25 else int(rng.integers(1, N + 1)))
            Y0 = prior(rng, M, N)
            S = c14.data(rng, mm, nn)
            r1, c1 = int(rng.integers(1, M - mm + 2)), int(rng.integers(1, N - nn + 2))
            t = rng.random()
            if t < .2: r1, c1 = M - mm + 1, N - nn + 1      # ends at the last row and column
            elif t < .3: r1, c1 = 1, 1
            env = gen.nthreads_env(rng)
            vec = (lambda *x: F(row(*x).T)) if rng.random() < .3 else row
            C.append((fn, "range", [Y0, (r1, r1 + mm - 1), (c1, c1 + nn - 1), S], Y0, None,
                      dict(fn=fn, args=[F(Y0.copy()), vec(r1, r1 + mm - 1), vec(c1, c1 + nn - 1), S], nout=0, post=True, env=env), 0, "plain"))
            if i % 3 == 0:
                for nm, rr, cc in rejections(rng, M, N, mm, nn):
                    C.append((fn, "reject: " + nm, [Y0, rr, cc, S], Y0, None, dict(fn=fn, args=[F(Y0.copy()), row(*rr), row(*cc), S], nout=0, post=True, env=env), 0, "reject"))
    res = R.run("oct", [c[5] for c in C], par=8)
    for (fn, mode, args, Y0, E, case, pos, kind), r in zip(C, res):
        key = "%s:%s:%s:" % (fn, mode, kind)
        info = dict(fn=fn, mode=mode, kind=kind, sizes=[np.shape(a) for a in args], ranges=[a for a in args if isinstance(a, tuple)], target=Y0.shape, block=float(args[2][0, 0]) if fn == "fftconv_ola" else None, env=case["env"])
        def bad(k, msg):
            ck.violate(key + k, msg, "oct", case, info=info)
        if r.kind == "skipped":
            ck.skip("skipped"); continue
        if r.kind in ("crash", "hang"):
            bad(r.kind, harness.show(r)); continue
        T = np.asarray(r.post[pos])
        for k, (a, b) in enumerate(zip(case["args"], r.post)):
            if k != pos and isinstance(a, np.ndarray) and not harness.same(a, b):
                bad("input", "argument %d was changed" % (k + 1))
        if T.shape != Y0.shape:
            bad("shape", "the target's shape changed to %s" % (T.shape,)); continue
        if mode.startswith("reject"):
            ck.saw((key, harness.asum(Y0), repr(info["ranges"]))); ck.count("rejected calls, target compared")
            if r.kind == "ok": bad("accepted", "accepted")
            if not harness.same(T, Y0): bad("changed", "rejected (%s), but %d elements of the target changed" % (r.msg, int(np.sum(~((T == Y0) | (np.isnan(T) & np.isnan(Y0)))))))
            continue
        if r.kind != "ok":
            bad("failed", harness.show(r)); continue
        if fn in calls.INPLACE:
            (r1, r2), (c1, c2), S = args[1], args[2], args[3]
            X = Y0.copy()
            if fn == "add_p": X[r1 - 1:r2, c1 - 1:c2] += S
            else: X[r1 - 1:r2, c1 - 1:c2] = S
            ck.saw((key, harness.asum(X), r1, c1)); ck.count(fn + " targets compared"); ck.count("elements compared", X.size)
            same = (T == X) & (np.signbit(T) == np.signbit(X)) | np.isnan(T) & np.isnan(X)
            if not np.all(same):
                k = np.argwhere(~same)[0]
                bad("value", "%d elements differ, first (%d,%d): %.17g, expected %.17g (before: %.17g)" % (int(np.sum(~same)), k[0] + 1, k[1] + 1, T[tuple(k)], X[tuple(k)], Y0[tuple(k)]))
            continue
        Y, sc = E
        with np.errstate(invalid="ignore"):
            X = Y if mode == "=" else Y0.astype(np.longdouble) + Y if mode == "+=" else Y0.astype(np.longdouble) - Y
            tol = np.zeros(Y0.shape) + c14.tolerance(fn, args[0], args[1], sc, Y)[None, :]
            if mode != "=":      # rounding of the running sums: at most the target plus the sum of |products|
                A, B = args[0], args[1]
                n = A.shape[0] if fn == "fftconv_ola" else min(max(B.shape) if c14.isvec(B) else B.shape[0], A.shape[0]) if fn == "conv_p" else 1
                tol = tol + 2 * (n + 2) * np.finfo(float).eps * (np.abs(np.where(np.isfinite(Y0), Y0, 0)) + sc[None, :])
            fin = np.isfinite(X)
            ok = np.where(fin, np.abs(T - X) <= tol, (T == X) | (np.isnan(T) & np.isnan(X)))
        ck.saw((key, harness.asum(Y0), harness.asum(T)), nontrivial=bool(np.any(Y)) or mode == "=")
        ck.count("%s %s targets compared" % (fn, mode)); ck.count("elements compared", X.size)
        if not np.all(ok):
            k = np.argwhere(~ok)[0]
            bad("value", "%d elements differ, first (%d,%d): %.17g, expected %.17g (before: %.17g)" % (int(np.sum(~ok)), k[0] + 1, k[1] + 1, T[tuple(k)], float(X[tuple(k)]), Y0[tuple(k)]))
    ck.sample(dict(examples=[dict(fn=c[0], mode=c[1], target=c[3].shape, kind=c[7]) for c in C[::max(1, len(C) // 12)]]))
    return ck.finish()
