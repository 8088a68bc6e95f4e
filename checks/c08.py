"""ThreadSanitizer and planner-overlap monitor over every parallel function."""
import re
import numpy as np
from vf import gen, calls, work, harness, dasm

RULE = ("one evaluation = one multi-threaded call of the ThreadSanitizer build with delayed thread starts and transforms and with the FFTW planner entry points watched; non-trivial when the "
        "call started at least two workers; distinct by arguments, language, environment and delay seed")

def sane(detail):
    """the first frames of a ThreadSanitizer report that lie in the code under test"""
    fr = re.findall(r"#\d+ (\S+).*?/(?:src|extra_src|include|oct|python|opencl)/[\w/]*?([\w.]+\.(?:cc|h|hpp|cpp)):(\d+)", detail)
    return "; ".join("%s %s:%s" % f for f in fr[:6])

def grow(rng, fn):
    """a call with at least two work items"""
    for _ in range(50):
        no = gen.batch(rng, [2, 3, 5, 8, 9, 16, 17, 24], .04)
        if fn in calls.PYSIR:
            a = 0.0 if rng.random() < .45 else gen.U(rng, .1, 4)
            c = calls.make(rng, fn, no=no, alpha=a, fit=bool(rng.random() < .5), max_cells=400)
            P = c.info
            from checks import sirval
            if sirval.cells(P) * no * (P["s"][3] if a else 8) > 6e5:
                continue
            return c
        return calls.make(rng, fn, no) if fn not in calls.INPLACE else calls.make(rng, fn)
    return c

def run():
    ck = harness.Check("C08", RULE, ["the transform library itself is not instrumented: only its entry points are watched",
                                     "ThreadSanitizer sees the schedules that ran; delays make more of them run"])
    fns = [f for f in calls.EVERY if f != "dream_apodwin"]
    m = 40 if ck.thorough else 8
    rounds = [dict(delay=300, xdelay=200, hold=300, abort=1, seed=ck.seed)]
    if ck.thorough:
        rounds += [dict(delay=2000, xdelay=50, hold=2000, abort=1, seed=ck.seed + 1), dict(abort=1, seed=ck.seed + 2), dict(delay=60, xdelay=60, hold=20, nprocs=24, abort=1, seed=ck.seed + 3)]
    else:
        rounds += [dict(delay=40, hold=50, nprocs=24, abort=1, seed=ck.seed + 3)]
    for rnd, mon in enumerate(rounds):
        R = work.Runner("tsan", calls.targets(fns), mon=mon)
        jobs = {"py": [], "oct": []}
        for fn in fns:
            rng = ck.subrng(fn, rnd)
            for i in range(m):
                c = grow(rng, fn)
                ls = c.langs()
                lang = ls[i % len(ls)] if i < 2 else ls[int(rng.integers(len(ls)))]
                t = str(int(rng.choice([2, 3, 4, 8, 8]) * (2 if mon.get("nprocs") else 1))) if rng.random() < .8 else None
                kw = dict(env={"DREAM_NUM_THREADS": t})
                if fn in calls.CONV[1:] and rng.random() < .5 and lang == "oct":
                    kw["nout"] = 2      # returned wisdom: planner routines before and after
                if fn in calls.PYSIR and rng.random() < .3:
                    c.oct_args[-1] = c.py[2][-1] = str(rng.choice(["stop", "warn"]))
                jobs[lang].append((c, c.case(lang, **kw)))
        for l in jobs:
            jobs[l] = [jobs[l][i] for i in ck.subrng("perm", rnd).permutation(len(jobs[l]))]
        rp, ro = harness.both(R, [c for _, c in jobs["py"]], [c for _, c in jobs["oct"]], hang_s=120)
        for lang, res in (("py", rp), ("oct", ro)):
            for (c, case), r in zip(jobs[lang], res):
                if r.kind == "skipped":
                    ck.skip("skipped"); continue
                par = c.fn in calls.INPLACE or c.n > 1
                ck.saw((lang, rnd, repr(c.brief()), repr(case.get("env"))), nontrivial=par)
                ck.count("%s %s" % (c.fn.split(":")[0], lang))
                key = "%s:%s:" % (c.fn.split(":")[0], lang)
                info = dict(call=c.brief(), env=case.get("env"), mon=mon)
                if r.kind == "crash":
                    d = r.detail
                    if "WARNING: ThreadSanitizer" in d:
                        ck.violate(key + "race", "ThreadSanitizer: %s  [%s]" % ((re.findall(r"WARNING: ThreadSanitizer: ([^\n]*)", d) or ["?"])[0], sane(d)), lang, case, "tsan", info)
                    elif "VFMON: overlapping" in d:
                        ck.violate(key + "planner", re.findall(r"VFMON: [^\n]*", d)[0], lang, case, "tsan", info)
                    else:
                        ck.violate(key + "crash", harness.show(r), lang, case, "tsan", info)
                elif r.kind == "hang":
                    ck.violate(key + "hang", harness.show(r), lang, case, "tsan", info)
                ck.sample(info)
        mc = R.mon_counts()
        ck.count("worker threads started", mc.get("threads", 0)); ck.count("thread starts delayed", mc.get("delayed", 0))
        ck.count("planner, wisdom and clean-up calls watched", mc.get("planner", 0)); ck.count("transforms", mc.get("exec", 0))
        R.close()
    return ck.finish()
