"""Repeated calls: live heap, FFTW plans, threads and descriptors over windows of identical workload."""
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from vf import gen, calls, work, harness, dasm
from vf.gen import row, F, U
from checks.c10 import corrupt

RULE = ("one evaluation = one session of a function in which the same mix of calls (varying sizes, or calls that fail) is repeated in equal windows after a warm-up, with the process's live heap, "
        "FFTW plans, threads and descriptors read between windows; non-trivial when all probes were read; distinct by function, language and kind of call")
NW = 5         # measured pairs of windows: few repetitions, many repetitions of the same cases

def kinds(fn, lang):
    L = ["valid", "malformed"]
    if fn in calls.PYSIR:
        L += ["lossy", "oob"]
    if fn.startswith("das:"):
        L += ["oob"]
    if lang == "oct" and fn in ("fftconv_p", "fftconv_ola", "sum_fftconv"):
        L += ["measure", "inplace"]
    if lang == "oct" and fn == "conv_p":
        L += ["inplace"]
    return L

def mix(rng, fn, lang, kind, n):
    out = []
    while len(out) < n:
        kw = {}
        if fn in calls.PYSIR:
            kw = dict(alpha=U(rng, .1, 2) if kind == "lossy" else 0.0, fit=kind != "oob", max_cells=300)
            if kind == "lossy": kw["nt"] = int(rng.choice([16, 31, 64])); kw["fit"] = False
        if fn.startswith("das:"): kw = dict(fit=kind != "oob")
        c = calls.make(rng, fn, gen.batch(rng, [1, 2, 4, 9], .05) if fn not in calls.INPLACE else None, **kw)
        env = {"DREAM_NUM_THREADS": str(rng.choice(["1", "2", "4", "8"]))}
        if kind == "oob":
            if fn.startswith("das:"):
                P = dasm.gen_das(rng, *fn.split(":")[1:], fit=False, err="stop"); P["delay"] = P["delay"] + np.asarray(1e4, P["delay"].dtype)
                case = dict(dasm.oct_das(P) if lang == "oct" else dasm.py_das(P), env=env)
            else:
                P = dict(c.info, err="stop"); P["delay"] = P["delay"] + 1e4
                case = gen.oct_sir(P, env=env) if lang == "oct" else gen.py_sir(P, env=env)
        elif kind == "malformed":
            bad = corrupt(rng, c, lang)
            case = dict(c.case(lang, env=env), args=bad[int(rng.integers(len(bad)))][1])
        elif kind == "inplace":
            A, B = c.oct_args[0], c.oct_args[1]
            M = A.shape[0] + (B.size if fn != "sum_fftconv" and min(B.shape) == 1 else B.shape[0]) - 1
            if M * A.shape[1] < 2:
                continue
            a = list(c.oct_args) + [F(rng.standard_normal((M, A.shape[1])))]
            if fn != "sum_fftconv": a.append(str(rng.choice(["=", "+=", "-="])))
            case = dict(c.case(lang, env=env), args=a, nout=0)
        else:
            case = c.case(lang, env=env)
            if kind == "measure": case["nout"] = 2
        out.append(case)
    return out

def one(job):
    fn, lang, kind, seed, thorough = job
    rng = np.random.default_rng(seed)
    R = work.Runner("rel", calls.targets([fn]), mon=dict(nprocs=8))
    try:
        L = mix(rng, fn, lang, kind, 5)
        rounds, lo, hi = (16, 1, 13) if thorough else (7, 1, 9)
        seq = []
        for w in range(2 * NW + 4):      # four windows of warm-up
            reps = hi if w % 2 else lo
            for r in range(rounds):
                for k, c in enumerate(L):
                    c = dict(c, reps=reps)
                    if r == 0 and k == 0:
                        c["env"] = dict(c["env"], VF_PROBE="w%d" % w)
                    seq.append(c)
        seq.append(dict(L[0], env=dict(L[0]["env"], VF_PROBE="w%d" % (2 * NW + 4))))
        res = R.run(lang, seq, par=1)
        return job, res, seq, [l for l in R.mon_log() if l.startswith("PROBE ")], rounds * (hi - lo) * len(L), rounds * len(L), R.mon_counts()
    finally:
        R.close()

def run():
    ck = harness.Check("C13", RULE, ["the windows repeat the same calls, so caches that depend only on the arguments (transform wisdom, persistent beamforming objects) are full after the warm-up",
                                     "resident memory is reported, not judged"])
    jobs = []
    for fn in calls.EVERY:
        for lang in ("oct", "py"):
            if lang == "py" and not (fn in calls.PYSIR or fn == "fftconv_p" or fn.startswith("das:")):
                continue
            for kind in kinds(fn, lang):
                if fn.startswith("das:") and not ck.thorough and kind == "malformed" and not fn.endswith(":d"):
                    continue
                jobs.append((fn, lang, kind, [ck.seed, int(ck.subrng(fn, lang, kind).integers(1 << 31))], ck.thorough))
    work.Runner("rel", calls.targets(calls.EVERY))
    with ThreadPoolExecutor(8) as ex:
        for (fn, lang, kind, _, _), res, seq, probes, ncalls, nsw, cnt in ex.map(one, jobs):
            key = "%s:%s:%s:" % (fn, lang, kind)
            bad = [(c, r) for c, r in zip(seq, res) if r.kind in ("crash", "hang")]
            if bad:
                ck.violate(key + bad[0][1].kind, harness.show(bad[0][1]), lang, bad[0][0]); continue
            T = [{k: int(v) for k, v in (x.split("=") for x in l.split()[2:])} for l in probes]
            if len(T) != 2 * NW + 5:
                ck.skip("probes missing"); continue
            T = T[4:]
            ck.saw(key); ck.count("calls in measured windows", (ncalls + 2 * nsw) * NW); ck.count("pairs of windows", NW)
            ck.count("transform plans created", cnt.get("planner", 0)); ck.count("threads created", cnt.get("threads", 0))
            for what, per_call, per_switch in (("heap", 12, 110), ("plans", .25, .25), ("tasks", .1, .1), ("fds", .1, .1)):
                g = [b[what] - a[what] for a, b in zip(T, T[1:])]
                few, many = g[0::2], g[1::2]      # the driver's own bookkeeping is the same in both
                d = min(sorted(m - f for f, m in zip(few, many))[1], sorted(m + f for f, m in zip(few, many))[1])        # all pairs but one; no swing to and fro
                e = sorted(few)[1]
                if what == "heap":
                    for n, v, k in (("call", d, ncalls), ("change of arguments", e, nsw)):
                        n = "largest steady heap growth per %s (bytes)" % n
                        ck.counts[n] = max(ck.counts.get(n, 0), round(v / k, 2))
                if d >= per_call * ncalls or e >= per_switch * nsw:
                    ck.violate(key + what, "%s grows steadily: by %s in windows of %d calls, by %s in windows of %d calls" % (what, few, nsw, many, ncalls + nsw), lang, seq[0],
                               info=dict(fn=fn, lang=lang, kind=kind, call=gen.brief(seq[0]["args"])))
            ck.sample(dict(fn=fn, lang=lang, kind=kind, calls_per_window=ncalls, heap=[t["heap"] for t in T], plans=[t["plans"] for t in T], tasks=[t["tasks"] for t in T], fds=[t["fds"] for t in T]), maxn=8)
    return ck.finish()
