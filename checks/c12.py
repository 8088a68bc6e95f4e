"""Random call histories in one session against the same calls in fresh sessions; inputs compared before and after."""
import copy
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from vf import gen, calls, work, harness, dasm
from vf.gen import row, F, U
from checks import c14
from checks.c10 import corrupt

RULE = ("one evaluation = one call somewhere in a random history compared with the same call alone in a fresh session, its inputs compared byte for byte before and after; "
        "non-trivial when the result has a non-zero sample; distinct by function, language, arguments and position")

IN = [f + ":in" for f in calls.CONV]        # the convolutions' in-place modes
ALL = calls.EVERY + calls.HELPERS + IN

def make(rng, fn, no=None, **kw):
    """a call; c.target is the argument it changes, or None"""
    if fn in IN:
        c = calls.make(rng, fn[:-3], no)
        Y = gen.F(c14.expected(fn[:-3], c.oct_args[0], c.oct_args[1])[0])
        if Y.size < 2: return make(rng, fn, no)
        c.fn, c.py, c.nout, c.target = fn, None, 0, len(c.oct_args)
        c.oct_args = c.oct_args + [calls.data(rng, *Y.shape)]
        if not fn.startswith("sum") and rng.random() < .7:
            c.oct_args.append(str(rng.choice(["=", "+=", "-="])))
        return c
    c = calls.make(rng, fn, no, **kw)
    c.target = 0 if fn in calls.INPLACE else None
    return c

def mutant(rng, c, pos=None, special=False):
    """the call with one argument changed, as a user changes one thing and calls again; None if there is nothing to change"""
    A = list(c.oct_args)
    can = [k for k, a in enumerate(A) if isinstance(a, str) or isinstance(a, np.ndarray) and a.size]
    k = pos if pos is not None else can[int(rng.integers(len(can)))]
    if k not in can:
        return None
    a = A[k]
    if isinstance(a, str):
        W = next((w for w in (["=", "+=", "-="], ["off", "x", "y", "xy"], ["off", "triangle", "gauss", "raised", "hann", "hamming", "simply", "clamped"], ["stop", "warn", "ignore"], ["rca_coltx", "rca_rowtx"], ["tfm", "saft"], ["bar", "atm", "at"]) if a in w), None)
        if W is None: return None
        b = str(rng.choice([w for w in W if w != a]))
    else:
        b = np.array(a, order="F", copy=True)
        t = rng.random()
        if special and t < .7 and np.any(b):
            # zero, which means something of its own in most arguments, in the first, the last or every place
            z = b.ravel(order="K") if b.flags.f_contiguous else b
            z[{0: slice(0, 1), 1: slice(-1, None), 2: slice(None)}[int(rng.integers(3))]] = 0
        elif special:
            b = -b if rng.random() < .5 else b * 0 + b.ravel()[0]
        elif b.shape[0] > 1 and t < .25:
            b = b[rng.permutation(len(b))]
        elif b.size > 4 and t < .4:
            b = b * b.dtype.type(1.0625)
        else:
            for _ in range(1 if b.size < 6 else 3):
                j = tuple(int(rng.integers(n)) for n in b.shape)
                b[j] = b[j] + 1 if b[j] == np.rint(b[j]) else b[j] * b.dtype.type(rng.uniform(.85, 1.2))
        b = np.asfortranarray(b)
        if np.array_equal(a, b): return None
    m = copy.copy(c)
    m.oct_args = A[:k] + [b] + A[k + 1:]
    if c.py:
        P = list(c.py[2])
        P[k] = float(b[0, 0]) if isinstance(P[k], float) else b
        m.py = (c.py[0], c.py[1], P)
    m.info = None
    return m

def lossy_one(rng, fn):
    """one point near or on the axis in a lossy medium"""
    c = make(rng, fn, 1, **(dict(alpha=U(rng, .5, 5), fit=True) if fn in calls.PYSIR else {}))
    A = list(c.oct_args)
    if rng.random() < .6: A[0] = row(0, 0, abs(A[0][0, 2]) + 2.0)
    if fn == "dream_att":
        r, (dt, nt), cp = float(np.sqrt((A[0] ** 2).sum())), A[1].ravel(), A[3].ravel()[0]
        A[1], A[2], A[3] = row(dt, max(nt, 16)), row(r * 1e3 / cp - 4 * dt), row(cp, U(rng, .5, 5))
    else:
        A[-1] = "ignore"
    c.oct_args = A
    if c.py: c.py = c.py[:2] + (A,)
    c.info = None
    return c

def shorter(c):
    """the call without one or more of its optional arguments; the SIR functions also with everything outside the window"""
    opt = 1 if c.fn in calls.PYSIR or c.fn == "scirc_sir" else 2 if c.fn.startswith("das:") else 0
    L = []
    for n in range(1, opt + 1):
        m = copy.copy(c)
        m.oct_args = list(c.oct_args[:-n])
        if c.py: m.py = (c.py[0], c.py[1], list(c.py[2][:-n]))
        m.info = None
        L.append(m)
        if c.dl is not None and c.fn not in calls.ANALYTIC:
            o = copy.copy(m)
            o.oct_args = list(m.oct_args); o.oct_args[c.dl] = np.asfortranarray(m.oct_args[c.dl] + 10000).astype(m.oct_args[c.dl].dtype)
            if c.py:
                o.py = (m.py[0], m.py[1], list(m.py[2])); o.py[2][c.dl] = np.asfortranarray(m.py[2][c.dl] + 10000).astype(m.py[2][c.dl].dtype)
            L.append(o)
    return L

def layouts(rng, c):
    """the same call with other memory layouts or types of equal values (Python)"""
    case = c.case("py")
    A, L = list(case["args"]), {}
    for k, a in enumerate(A):
        if isinstance(a, np.ndarray) and a.ndim == 2 and a.size:
            t = int(rng.integers(6))
            if t < 4:
                L[k] = ("strided", "rev", "ro", "c")[t]
            elif t == 4 and a.dtype == np.float64 and np.all(a == np.rint(a)) and np.abs(a).max() < 1e6:
                A[k] = a.astype(np.int64)
    return dict(case, args=A, layout=L)

def classes(rng, c):
    """the same call with equal values of other classes (Octave)"""
    case = c.case("oct")
    T = {}
    for k, a in enumerate(case["args"]):
        if k == c.target or not isinstance(a, np.ndarray) or a.ndim != 2 or not a.size or a.dtype != np.float64 or np.any(np.signbit(a) & (a == 0)):
            continue
        W = ["sparse"]
        if not c.fn.startswith("das"):
            z = np.all(a == np.rint(a))
            if np.all(a.astype("f4") == a): W += ["single"] * 2
            if z and np.abs(a).max() < 1e6: W += ["int32", "int64"]
            if z and a.min() >= 0 and a.max() < 256: W.append("uint8")
            if z and a.min() >= 0 and a.max() < 2: W.append("logical")
        if a.shape[0] == 1 and a.size > 2: W += ["range"] * 2
        if rng.random() < .6: T[k] = str(rng.choice(W))
    return dict(case, otype=T)

def inputs_same(case, r, skip=()):
    if r.post is None:
        return None
    for k, (a, b) in enumerate(zip(case["args"], r.post)):
        if k in skip or not isinstance(a, np.ndarray) or isinstance(a, (work.Cell, work.Struct, work.FHandle)):
            continue
        if b is None:
            continue
        x, y = np.asarray(a), np.asarray(b)
        if x.size != y.size or x.dtype != y.dtype and case.get("mod"):
            return "argument %d: shape/type changed" % (k + 1)
        if np.ascontiguousarray(x.astype(y.dtype)).tobytes() != np.ascontiguousarray(y.reshape(x.shape)).tobytes():
            return "argument %d changed" % (k + 1)
    return None

def run():
    ck = harness.Check("C12", RULE, ["transform-based results (convolutions, lossy media) are compared up to rounding because measured transform plans stay in the session; all others bit for bit"])
    R = work.Runner("rel", calls.targets(calls.EVERY))
    nsess, length = (14, 160) if ck.thorough else (3, 90)
    sessions = []
    for lang in ("oct", "py"):
        for s in range(nsess):
            rng = ck.subrng(lang, s)
            pool = []
            steps = []
            fns = [f for f in ALL if lang == "oct" or f in calls.PYSIR or f == "fftconv_p" or f.startswith("das:")]
            if s % 3 == 1:      # a narrow session: few functions, so that state of one function meets itself
                fns = [str(f) for f in rng.choice(fns, 3, replace=False)]
            elif s % 3 == 2:
                fns = [f for f in fns if f.startswith("das:") or f == "fftconv_p" or f in ("dreamrect", "dream_arr_annu", "rect_sir", "scirc_sir", "dream_att")]
            for k in range(length):
                t = rng.random()
                if t < .3 and pool:
                    c = pool[int(rng.integers(len(pool)))]
                else:
                    fn = str(rng.choice(fns))
                    c = make(rng, fn, gen.batch(rng, [1, 2, 3, 5, 9], .05) if fn not in calls.INPLACE else None)
                    pool.append(c)
                env = {"DREAM_NUM_THREADS": str(rng.choice(["1", "2", "3", "8"]))}
                if rng.random() < .12 and c.fn not in calls.HELPERS:
                    bad = corrupt(rng, c, lang)
                    name, a = bad[int(rng.integers(len(bad)))]
                    if lang == "oct" or True:
                        steps.append(("bad", c, dict(c.case(lang, env=env), args=a)))
                if c.fn in calls.PYSIR and rng.random() < .12:
                    P = dict(c.info); P["delay"] = P["delay"] + 1e4
                    case = gen.oct_sir(P, err="stop", env=env) if lang == "oct" else gen.py_sir(P, err="stop", env=env)
                    steps.append(("bad", c, case))
                case = (layouts(rng, c) if lang == "py" else classes(rng, c)) if rng.random() < .4 else c.case(lang)
                case.update(env=env, post=True)
                if lang == "oct" and c.fn in ("fftconv_p", "fftconv_ola", "sum_fftconv") and rng.random() < .3:
                    case["nout"] = 2        # measures plans
                steps.append(("call", c, case))
                if rng.random() < .12:
                    m = mutant(rng, c)
                    if m:
                        env = {"DREAM_NUM_THREADS": str(rng.choice(["1", "1", "2", "8"]))}
                        for x in (c, m, c):
                            steps.append(("call", x, dict(x.case(lang, env=env), reuse=True, post=True)))
            sessions.append((lang, s, steps))
    # one function per session: good calls around every way for a call to fail, then other sizes and back
    for lang in ("oct", "py"):
        for fn in ALL:
            if not (lang == "oct" or fn in calls.PYSIR or fn == "fftconv_p" or fn.startswith("das:")):
                continue
            rng = ck.subrng("one", lang, fn)
            for rep in range(6 if ck.thorough else 1):
                cs = [make(rng, fn, n if fn not in calls.INPLACE else None) for n in (5, 1, 9, 2)]
                steps = []
                if fn in IN:        # with and without a mode, and between ordinary calls
                    for k, c in enumerate(cs):
                        if not fn.startswith("sum"):
                            c.oct_args = c.oct_args[:c.target + 1] + ([], ["-="], ["+="], ["="])[k]
                    cs[2 + rep % 2] = make(rng, fn[:-3], 9)
                def good(c):
                    env = {"DREAM_NUM_THREADS": str(rng.choice(["1", "2", "3", "8"]))}
                    case = (layouts(rng, c) if lang == "py" else classes(rng, c)) if rng.random() < .4 else c.case(lang)
                    case.update(env=env, post=True)
                    steps.append(("call", c, case))
                def oob(c, err):
                    P = dict(c.info); P["delay"] = P["delay"] + 1e4
                    env = {"DREAM_NUM_THREADS": str(rng.choice(["1", "2", "8"]))}
                    steps.append(("bad", c, gen.oct_sir(P, err=err, env=env) if lang == "oct" else gen.py_sir(P, err=err, env=env)))
                def dasoob(c):
                    case = c.case(lang)
                    a = list(case["args"]); a[5] = np.asfortranarray(a[5] + 1e4).astype(a[5].dtype); a[8] = "stop"
                    steps.append(("bad", c, dict(case, args=a)))
                def wrong(c):
                    if fn in calls.HELPERS: return
                    bad = corrupt(rng, c, lang)
                    steps.append(("bad", c, dict(c.case(lang), args=bad[int(rng.integers(len(bad)))][1])))
                for k in range(2):
                    good(cs[0]); good(cs[1])
                    if fn in calls.PYSIR:
                        oob(cs[k], "stop"); good(cs[0]); oob(cs[0], "warn"); good(cs[2]); oob(cs[2], "ignore")
                    if fn.startswith("das:"):
                        dasoob(cs[k]); good(cs[0])
                    wrong(cs[0]); good(cs[2]); wrong(cs[3]); good(cs[3]); good(cs[0]); good(cs[1]); good(cs[2])
                # one argument changed between calls, each in turn; the caller's arrays are overwritten in place
                kw = dict(alpha=0.0) if fn in calls.PYSIR else {}
                if fn in gen.ARR3: kw.update(foc=str(rng.choice(["x", "y", "xy"])), steer="xy", apod=str(rng.choice(["gauss", "raised"])))
                elif fn == "dream_arr_annu": kw.update(foc="xy", apod="gauss", ne=3)
                elif fn in gen.FOC2: kw.update(foc="xy")
                c0 = make(rng, fn, gen.batch(rng, [1, 2, 3], .05) if fn not in calls.INPLACE else None, **kw)
                for pos in rng.permutation(len(c0.oct_args)):
                    m = mutant(rng, c0, int(pos))
                    if m is None: continue
                    env = {"DREAM_NUM_THREADS": str(rng.choice(["1", "1", "2", "3"]))}
                    for x in (c0, m):
                        steps.append(("call", x, dict(x.case(lang, env=env), reuse=True, post=True)))
                # the same with zeros and signs, on one thread as in the calling thread's own memory
                d = c0.dl
                for pos in rng.permutation(len(c0.oct_args)):
                    if d is not None and pos in (d - 1, d + 1) or fn.startswith("das:") and pos in (4, 6):
                        continue        # not the sampling steps, nor the velocities
                    m = mutant(rng, c0, int(pos), special=True)
                    if m is None: continue
                    for x in (c0, m, c0):
                        steps.append(("call", x, dict(x.case(lang, env={"DREAM_NUM_THREADS": "1"}), post=True)))
                # the same in lossy media: one number of the sampling or the material at a time, one point, one thread
                if fn in calls.PYSIR or fn == "dream_att":
                    for _ in range(2):
                        c1 = lossy_one(rng, fn)
                        for pos, el, f in [(c1.dl + 1, -1, 3.0), (c1.dl + 1, -2, 1.1), (c1.dl - 1, -2, 1.3)] + ([(c1.dl + 1, 0, -2.0)] if fn != "dream_att" else []):
                            m = copy.copy(c1)
                            b = np.array(c1.oct_args[pos], float); b[0, el] *= f
                            m.oct_args = c1.oct_args[:pos] + [np.asfortranarray(b)] + c1.oct_args[pos + 1:]
                            if c1.py: m.py = c1.py[:2] + (m.oct_args,)
                            m.info = None
                            for x in (c1, m, c1):
                                steps.append(("call", x, dict(x.case(lang, env={"DREAM_NUM_THREADS": "1"}), post=True)))
                # optional arguments left out, after calls that gave them
                for m in shorter(c0) + shorter(cs[0]):
                    for how in ("ignore", "warn", "stop"):
                        if fn in calls.PYSIR: oob(c0 if c0.info else cs[0], how)
                        elif fn.startswith("das:"):
                            case = cs[0].case(lang); a = list(case["args"]); a[5] = np.asfortranarray(a[5] + 1e4).astype(a[5].dtype); a[8] = how
                            if m is not c0 and how != "stop": a[7] = {"saft": "saft"}.get(a[7], str(rng.choice(["rca_coltx", "rca_rowtx", "tfm"])))
                            steps.append(("bad", cs[0], dict(case, args=a)))
                        elif fn == "scirc_sir": good(cs[1])
                        steps.append(("call", m, dict(m.case(lang, env={"DREAM_NUM_THREADS": str(rng.choice(["1", "2"]))}), post=True)))
                sessions.append((lang, "one-%s-%d" % (fn, rep), steps))
    # the arguments of the history are shared objects: keep pristine copies
    with ThreadPoolExecutor(8) as ex:
        hist = ex.map(lambda S: R.run(S[0], [x[2] for x in S[2]], par=1), sessions)
        uniq = {}
        for lang, s, steps in sessions:
            for what, c, case in steps:
                if what == "call":
                    uniq.setdefault((lang, id(c)), c)
        fresh_keys = list(uniq)
        fresh = dict(zip(fresh_keys, ex.map(lambda k: R.run(k[0], [uniq[k].case(k[0], env={"DREAM_NUM_THREADS": "1"}, post=True)], par=1)[0], fresh_keys)))
        hist = list(hist)
    for (lang, s, steps), res in zip(sessions, hist):
        last = None
        for k, ((what, c, case), r) in enumerate(zip(steps, res)):
            key = "%s:%s:" % (c.fn, lang)
            info = dict(call=c.brief(), position=k, session=s, previous=[x[1].fn + ("!" if x[0] == "bad" else "") for x in steps[max(0, k - 6):k]])
            prev = [(lang, x[2]) for x in steps[max(0, k - 6):k + 1]]
            if r.kind == "skipped":
                ck.skip("skipped"); continue
            if r.kind in ("crash", "hang"):
                ck.violate(key + r.kind, "%s in a history: %s" % (r.kind, harness.show(r)), cases=prev, info=info); continue
            if what == "bad":
                ck.count("failing calls in histories (%s)" % r.kind); continue
            f = fresh[(lang, id(c))]
            if f.kind == "skipped":
                ck.skip("skipped"); continue
            if r.kind != f.kind:
                ck.violate(key + "kind", "alone: %s; in the history: %s" % (harness.show(f), harness.show(r)), cases=prev, info=info); continue
            x = inputs_same(case, r, skip=() if c.target is None else (c.target,))
            if x:
                ck.violate(key + "inputs", x, cases=prev, info=info)
            if r.kind != "ok":
                ck.count("calls failing alike"); ck.saw(None, nontrivial=False); continue
            a = f.out if c.target is None else f.post[c.target]
            b = r.out if c.target is None else r.post[c.target]
            ck.saw((key, harness.asum(b), k, s), nontrivial=bool(np.any(b)))
            ck.count("calls compared (%s)" % lang)
            if case.get("reuse"): ck.count("calls with the caller's arrays overwritten in place")
            if case.get("layout"): ck.count("calls with other array layouts")
            for t in (case.get("otype") or {}).values(): ck.count("arguments given as " + t)
            if not calls.agree(c, a, b):
                d = np.abs(np.asarray(a, float) - np.asarray(b, float)).max() if np.shape(a) == np.shape(b) else (np.shape(a), np.shape(b))
                ck.violate(key + "differs", "result differs from the fresh session's by %s" % (d,), cases=prev, info=info)
            elif len(f.outs) > 1 and len(r.outs) > 1 and isinstance(f.outs[1], np.ndarray) and not harness.same(f.outs[1], r.outs[1]):
                ck.violate(key + "status", "status %s, fresh session %s" % (r.outs[1], f.outs[1]), cases=prev, info=info)
        ck.sample(dict(lang=lang, history=[x[1].fn + ("!" if x[0] == "bad" else "") for x in steps[:25]]))
    return ck.finish()
