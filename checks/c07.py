"""Bitwise independence of thread count, batch composition and order, under injected thread-start delays."""
import numpy as np
from vf import gen, calls, work, harness, dasm

RULE = ("one evaluation = one variant call (other thread count, sub-batch, permutation, duplicated points) whose every column is compared with the column of the one-thread "
        "full-batch reference; non-trivial when the reference has a non-zero sample; distinct by arguments, variant, language")
FFTTOL = 1e-12

ths = ["1", "2", "3", "4", "5", "6", "7", "8", None]

def variants(rng, n, thorough):
    L = [("threads", t, None) for t in rng.permutation(np.array(ths[1:], object))[: 8 if thorough else 4]]
    L.append(("odd setting", str(rng.choice(["0", "-1", "", "abc", "1000", "99999999999999999999", "2 threads", "0x4", "1.5"])), None))
    T = lambda: ths[int(rng.integers(len(ths)))]
    if n > 1:
        L.append(("single", T(), [int(rng.integers(n))]))
        L.append(("last", T(), [n - 1]))
        L.append(("perm", T(), rng.permutation(n).tolist()))
        L.append(("reverse", T(), list(range(n))[::-1]))
        L.append(("prefix", T(), list(range(int(rng.integers(1, n))))))
        L.append(("dup", T(), rng.integers(0, n, int(rng.integers(2, 2 * n + 2))).tolist()))
    return L

def judge(ck, c, lang, var, ref, r, case, rcase):
    kind, th, idx = var
    key = "%s:%s:%s" % (c.fn, lang, kind)
    info = dict(call=c.brief(), variant=gen.brief(var))
    if r.kind == "skipped" or ref.kind == "skipped":
        ck.skip("skipped"); return
    if r.kind != ref.kind:
        ck.violate(key + ":kind", "reference (1 thread): %s; variant %s: %s" % (harness.show(ref), var, harness.show(r)), cases=[(lang, rcase), (lang, case)], info=info); return
    if ref.kind != "ok":
        ck.count("both failed alike: " + c.fn + ref.msg[:80]); ck.saw(None, nontrivial=False); return
    a = ref.post[0] if c.nout == 0 else np.asarray(ref.out)
    b = r.post[0] if c.nout == 0 else np.asarray(r.out)
    ck.saw((key, harness.asum(a), repr(var)), nontrivial=bool(np.any(a)))
    ck.count("variant " + kind)
    dasim = c.fn.startswith("das:")
    if idx is not None:
        a = a.reshape(-1)[idx].reshape(-1, *([1] * (a.ndim - 1))) if dasim else a[:, idx]
    if a.shape != b.shape:
        ck.violate(key + ":shape", "shape %s, expected %s" % (b.shape, a.shape), cases=[(lang, rcase), (lang, case)], info=info); return
    if c.exact:
        if not harness.same(a, b):
            d = np.flatnonzero((np.asarray(a) != np.asarray(b)).reshape(a.shape).any(0) if not dasim else (a != b).ravel())
            ck.violate(key + ":differs", "variant %s: columns/pixels %s differ, by up to %g" % (gen.brief(var), d[:8].tolist(), np.nanmax(np.abs(np.asarray(a, float) - np.asarray(b, float)))), cases=[(lang, rcase), (lang, case)], info=info)
    else:
        if harness.same(a, b):
            ck.count("FFT results bit-identical")
        sc = np.max(np.abs(a)) if a.size else 0
        if not np.all(np.abs(a - b) <= FFTTOL * max(sc, 1e-300) * 10):
            ck.violate(key + ":differs", "variant %s differs by %g (scale %g)" % (gen.brief(var), np.abs(a - b).max(), sc), cases=[(lang, rcase), (lang, case)], info=info)

def run():
    ck = harness.Check("C07", RULE, ["FFT-based convolutions are compared to 1e-11 of the peak, not bit for bit: the transform library chooses its algorithm by data alignment"])
    fns = [f for f in calls.EVERY if f != "dream_apodwin"]
    R = work.Runner("rel", calls.targets(fns))
    m = 60 if ck.thorough else 8
    C = []
    for fn in fns:
        rng = ck.subrng(fn)
        for i in range(m * (2 if fn in calls.PYSIR else 1)):
            C.append(calls.make(rng, fn))
        if fn in calls.PYSIR or fn in calls.ANALYTIC or fn == "dream_att" or fn.startswith("das:"):      # runs of equal points with a delay each
            for i in range(2 if not ck.thorough else 20):
                kw = dict(fit=False, per_point_delay=True, alpha=0.0 if i % 2 == 0 else .7, nt=64) if fn in calls.PYSIR else dict(fit=False) if fn.startswith("das:") else {}
                for _ in range(30):
                    c = calls.make(rng, fn, 9, **kw)
                    if np.size(c.oct_args[c.dl]) > 1: break
                idx = np.sort(rng.integers(0, 9, 9))
                for A in [c.oct_args] + ([c.py[2]] if c.py else []):
                    for q in c.rows: A[q] = np.asfortranarray(A[q][idx])
                C.append(c)
        if fn not in calls.INPLACE:      # many points
            for i in range(1 if not ck.thorough else 6):
                n = int(rng.choice([257, 510, 603, 1003]))
                kw = dict(alpha=0.0, fit=bool(rng.random() < .5), nt=int(rng.choice([16, 64])), ne=2) if fn in calls.PYSIR else {}
                if kw.get("fit"): kw.pop("nt")
                C.append(calls.make(rng, fn, n, **kw))
    cid = ck.rng.permutation(len(C))
    C = [C[i] for i in cid]
    jobs = {"py": [], "oct": []}
    for k, c in enumerate(C):
        rng = ck.subrng("v", k)
        ls = c.langs()
        lang = ls[int(rng.integers(len(ls)))]
        V = variants(rng, c.n if (c.rows or c.cols) else 1, ck.thorough)
        jobs[lang].append((c, V))
    def cases(lang):
        # python's fftconv_p measures its plans; what it measured would change the rounding of later lossy calls
        jobs[lang].sort(key=lambda x: x[0].fn == "fftconv_p")
        ref, var = [], []
        for j, (c, V) in enumerate(jobs[lang]):
            post = c.nout == 0
            ref.append(c.case(lang, env={"DREAM_NUM_THREADS": "1"}, post=post))
            for v in V:
                var.append((j, v, c.case(lang, env={"DREAM_NUM_THREADS": v[1]}, idx=v[2], post=post)))
        return ref, var
    refp, varp = cases("py"); refo, varo = cases("oct")
    rp, ro = harness.both(R, refp, refo)
    for rnd, mon in enumerate([dict(delay=0), dict(delay=400, seed=ck.seed)] + ([dict(delay=3000, seed=ck.seed + 7), dict(delay=60, nprocs=24, seed=ck.seed + 9)] if ck.thorough else [dict(delay=60, nprocs=24, seed=ck.seed + 9)])):
        RM = work.Runner("rel", calls.targets(fns), mon=mon)
        big = mon.get("nprocs")
        def adj(V):
            if not big: return V
            out = []
            for j, v, c in V:
                if v[1] in ths[1:-1]:
                    t = str(int(v[1]) * 3)
                    v = (v[0], t, v[2]); c = dict(c, env={"DREAM_NUM_THREADS": t})
                out.append((j, v, c))
            return out
        vp, vo = adj(varp), adj(varo)
        # an injected delay makes the whole thing slower: a share of the variants
        if rnd and not ck.thorough:
            rng = ck.subrng("share", rnd)
            vp = [v for v in vp if rng.random() < .5]; vo = [v for v in vo if rng.random() < .5]
        xp, xo = harness.both(RM, [v[2] for v in vp], [v[2] for v in vo])
        for lang, V, X, ref, rc in (("py", vp, xp, rp, refp), ("oct", vo, xo, ro, refo)):
            for (j, v, case), r in zip(V, X):
                judge(ck, jobs[lang][j][0], lang, v, ref[j], r, case, rc[j])
        mc = RM.mon_counts()
        ck.count("threads started", mc.get("threads", 0)); ck.count("thread starts delayed", mc.get("delayed", 0))
        RM.close()
    for c in C[:4]:
        ck.sample(c.brief())
    return ck.finish()
