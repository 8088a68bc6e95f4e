"""SIGINT sent at varied moments of long calls: error, promptness, next result, signal disposition."""
import math
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from vf import gen, calls, work, harness, dasm, oracle
from vf.gen import row, F, U

RULE = ("one evaluation = one long call interrupted while its own interrupt handling was in force, or one short call (valid, out of bounds, malformed or just after an interrupted one) "
        "around which the session's signal handling is observed; distinct by function, language, threads, moment and arguments; calls that ended before the signal are inconclusive")
NTH = ["1", "2", "3", "5", "8", None]
MEM = 24e6          # doubles in one output

def big(rng, fn, lossy=None, fit=None):
    """-> builder(n points) of a heavy call, estimated doubles per point"""
    if fn in calls.PYSIR:
        lossy = rng.random() < .35 if lossy is None else lossy
        err = str(rng.choice(["ignore", "warn", "stop"]))
        if fit is not None: err = "stop" if fit else str(rng.choice(["ignore", "warn"]))
        kw = dict(fit=True) if err == "stop" else dict(fit=False, nt=int(rng.choice([8, 16, 31])))
        P = gen.gen_sir(rng, fn, no=2, alpha=U(rng, .1, 3) if lossy else 0.0, err=err, per_point_delay=False, **kw)
        want = 600 if lossy else 30000
        if fn == "dream_arr_annu":
            Q = dict(P, fn="dreamcirc", geom=[np.ravel(P["G"])[-1]])
            cells = lambda: len(oracle.contributions(dict(Q, s=P["s"]), 0)[0]) * 2 * np.size(P["G"])
        else:
            cells = lambda: len(oracle.contributions(P, 0)[0])
        for _ in range(40):
            c = cells()
            if .6 * want < c < 2 * want:
                break
            f = math.sqrt(max(c, 1) / want) if fn != "dreamline" else max(c, 1) / want
            f = min(max(f, .2), 5)
            if fn == "dream_arr_annu" and f > 1 and P["s"][1] * f > np.ravel(P["G"])[-1]:
                break
            P["s"] = (P["s"][0] * f, P["s"][1] * f) + tuple(P["s"][2:])
        R1 = P["Ro"]
        def build(n):
            Q = dict(P, Ro=np.resize(R1, (n, 3)))
            return gen.sir_args(Q) + [err]
        return build, P["s"][3], (fn, fn)
    if fn.startswith("das:"):
        _, m, p = fn.split(":")
        err = str(rng.choice(["ignore", "warn", "warn", "stop"]))
        P = dasm.gen_das(rng, m, p, no=2, fit=err == "stop", err=err, nt_el=6000 if m == "saft" else 100, nr_el=90)
        R1 = P["Ro"]; P["delay"] = P["delay"][:1, :1]
        def build(n):
            Q = dict(P, Ro=np.resize(R1, (n, 3)).astype(P["Ro"].dtype))
            return Q
        y = dasm.py_das(P)
        return (lambda n: build(n)), 1, (y["mod"], y["fn"])
    if fn in calls.ANALYTIC:
        c = calls.analytic(rng, fn, 2)
        A = list(c.oct_args)
        nt = 200
        A[2] = row(A[2][0, 0], nt); A[3] = A[3][:1, :1]
        if fn == "scirc_sir": A[5] = row(40.0)
        return (lambda n: [F(np.resize(A[0], (n, 3)))] + A[1:]), nt, None
    if fn == "conv_p":
        a, b = rng.standard_normal((1800, 1)), F(rng.standard_normal((1700, 1)))
        return (lambda n: [F(np.repeat(a, n, 1)), b]), 5300, None
    if fn == "fftconv_p":
        a, b = rng.standard_normal((18, 1)), F(rng.standard_normal((2000, 1)))      # 2017 is prime
        return (lambda n: [F(np.repeat(a, n, 1)), b]), 2100, None
    if fn == "fftconv_ola":
        a, b = rng.standard_normal((1500, 1)), F(rng.standard_normal((200, 1)))
        return (lambda n: [F(np.repeat(a, n, 1)), b, row(1.0)]), 3300, None
    if fn == "sum_fftconv":
        L = 30
        H, Ub = rng.standard_normal((20, 1, L)), F(rng.standard_normal((2000, L)))
        return (lambda n: [F(np.repeat(H, n, 1)), Ub]), 2700, None
    raise KeyError(fn)

def case(fn, lang, args, pym, env, nout=None):
    if fn.startswith("das:"):
        if isinstance(args, dict):
            c = dasm.oct_das(args) if lang == "oct" else dasm.py_das(args)
            return dict(c, env=env)
    if lang == "oct":
        return dict(fn=fn.split(":")[0], args=args, env=env, nout=1)
    return dict(mod=pym[0], fn=pym[1], args=args, env=env)

def intlog(lines):
    out = []
    for l in lines:
        if l.startswith("INT "):
            out.append({k: float(v) for k, v in (x.split("=") for x in l.split()[1:])})
    return out

def one(job):
    fn, lang, rounds, seed, T, kind = job
    rng = np.random.default_rng(seed)
    R = work.Runner("rel", calls.targets([fn]), mon=dict(nprocs=8))
    try:
        build, dpp, pym = big(rng, fn, *kind)
        n0 = 24
        # how much processor time does a point take
        cal = [case(fn, lang, build(n0), pym, {"DREAM_NUM_THREADS": "1"}), case(fn, lang, build(n0), pym, {"DREAM_NUM_THREADS": "1", "VF_INT": "4000000000:4000000000"})]
        r = R.run(lang, cal, par=1)
        il = intlog(R.mon_log())
        if any(x.kind != "ok" for x in r) or len(il) != 1:
            return job, None, [(cal[-1], r[-1], "calibration", {})]
        per = il[0]["before_cpu"] / n0
        open(R.mon_file + ".log", "w").close()
        n = max(n0, min(int(T / max(per, 1e-9)), int(MEM / dpp), 400000))
        full = n * per
        small = calls.make(rng, fn, int(rng.choice([2, 3, 9])), **(dict(fit=True) if fn in calls.PYSIR else {}))
        seq, meta = [], []
        def add(c, what, info=None):
            seq.append(c); meta.append((what, info or {}))
        th = lambda: NTH[int(rng.integers(len(NTH)))]
        add(dict(small.case(lang), env={"VF_DISP": "0"}), "small")
        for k in range(rounds):
            t = NTH[int(rng.integers(len(NTH)))] if full > 2.5 else ["1", "2"][int(rng.integers(2))]
            if k == 0: t = "1"
            nt = int(t or 8)
            d = U(rng, .003, min(.25, .3 * full / nt))
            fb = 2.0 + .25 * full / nt
            add(case(fn, lang, build(n), pym, {"DREAM_NUM_THREADS": t, "VF_DISP": "i", "VF_INT": "%d:%d" % (d * 1e6, fb * 1e6)}), "big", dict(threads=t, delay=d, full=full, points=n))
            add(dict(small.case(lang), env={"DREAM_NUM_THREADS": th(), "VF_DISP": "n"}), "small")
        # the session's handling around calls that end in every way
        bad = small.case(lang); bad["args"] = list(bad["args"]); bad["args"][0] = F(np.ones((2, 5, 2)))[:, :, 0] if fn not in calls.CONV else np.zeros((0, 0))
        for sig in ("own", "ign", "dfl"):
            add(dict(small.case(lang), env={"VF_SIG": sig}), "sig", dict(sig=sig))
            add(dict(bad, env={"VF_SIG": sig}), "sigbad", dict(sig=sig))
            if fn in calls.PYSIR and sig == "own":
                P = dict(small.info); P["delay"] = P["delay"] + 1e4
                oob = gen.oct_sir(P, err="stop") if lang == "oct" else gen.py_sir(P, err="stop")
                add(dict(oob, env={"VF_SIG": sig, "DREAM_NUM_THREADS": th()}), "sigoob", dict(sig=sig))
        res = R.run(lang, seq, par=1, hang_s=120)
        return job, R.mon_log(), list(zip(seq, res, [m[0] for m in meta], [m[1] for m in meta]))
    finally:
        R.close()

def run():
    ck = harness.Check("C11", RULE, ["dream_att, dream_apodwin and the Python fftconv_p install no interrupt handling and are not long-running; they are not judged",
                                     "the signal is directed at the process, as a terminal does"])
    rounds = 8 if ck.thorough else 2
    jobs = []
    fns = list(gen.ALLSIR) + calls.ANALYTIC + calls.CONV + (calls.DAS if ck.thorough else ["das:saft:d", "das:tfm:f", "das:rca_coltx:d", "das:rca_rowtx:f"])
    for fn in fns:
        for lang in ("oct", "py"):
            if lang == "py" and fn not in calls.PYSIR and not fn.startswith("das:"):
                continue
            # lossless and lossy, within the window and outside; which goes with which language changes with the seed
            for k in range(2 if fn in calls.PYSIR else 1):
                kind = (bool(k), bool((k + (lang == "py") + ck.seed) % 2)) if fn in calls.PYSIR else ()
                jobs.append((fn, lang, rounds, [ck.seed, int(ck.subrng(fn, lang, k).integers(1 << 31))], 8.0, kind))
    work.Runner("rel", calls.targets(fns))      # build once
    with ThreadPoolExecutor(4) as ex:
        for (fn, lang, _, _, _, _), log, items in ex.map(one, jobs):
            key = "%s:%s:" % (fn.split(":")[0], lang)
            if log is None:
                c, r, _, _ = items[0]
                if r.kind in ("crash", "hang"):
                    ck.violate(key + "calibration", "calibration: " + harness.show(r), lang, c)
                else:
                    ck.skip("calibration " + fn + " " + harness.show(r)[:40])
                continue
            il = intlog(log)
            sl = [l for l in log if l.startswith("SIG ")]
            disp = [l.split() for l in log if l.startswith("DISP ")]
            ref = None
            died = False
            for c, r, what, info in items:
                cinfo = dict(fn=fn, **info)
                if r.kind == "skipped":
                    ck.skip("skipped"); died = True; continue
                if r.kind in ("crash", "hang"):
                    ck.violate(key + what + "-" + r.kind, "%s call (%s): the session did not survive: %s" % (what, info, harness.show(r)), lang, None if what == "big" else c, info=cinfo)
                    died = True
                    continue
                if what == "big":
                    il_ = il.pop(0) if il else None
                    if il_ is None:
                        ck.skip("no record"); continue
                    if il_["fired"] == 0:
                        ck.skip("ended before the signal"); ck.count("ended before the signal: " + key); continue
                    ck.saw((key, info["threads"], round(info["delay"], 4), info["points"]))
                    ck.count("interrupted calls (%s)" % lang); ck.count("interrupted with %s threads" % (info["threads"] or "default"))
                    cinfo.update(il_)
                    if r.kind == "ok":
                        ck.violate(key + "ran-on", "the interrupt %.0f ms into the computation was ignored: the call returned a result" % (1e3 * info["delay"]), lang, None, info=cinfo)
                    rest = info["full"] - il_["before_cpu"]
                    ck.count("max ms of processor time after the signal", 0)
                    ck.counts["max ms of processor time after the signal"] = max(ck.counts["max ms of processor time after the signal"], int(1e3 * il_["after_cpu"]))
                    if il_["after_cpu"] > .3 and il_["after_cpu"] > .2 * rest:
                        ck.violate(key + "late", "after the interrupt the call used %.2f s of processor time (whole call: %.2f s) before it stopped" % (il_["after_cpu"], info["full"]), lang, None, info=cinfo)
                elif what == "small":
                    if r.kind != "ok":
                        ck.violate(key + "next-failed", "the call after an interrupted one: %s" % harness.show(r), lang, c, info=cinfo); continue
                    if ref is None:
                        ref = r
                    else:
                        ck.saw((key, "next", repr(c["env"]), asum(r)))
                        ck.count("calls after an interrupted one compared")
                        if len(ref.outs) != len(r.outs) or not all(harness.same(a, b) or close(fn, a, b) for a, b in zip(ref.outs, r.outs)):
                            ck.violate(key + "next-differs", "the call after an interrupted one gives another result", lang, c, info=cinfo)
                else:
                    if not sl:
                        ck.skip("no disposition record"); continue
                    l = dict(x.split("=") for x in sl.pop(0).split()[1:])
                    ck.saw((key, what, info["sig"], r.kind))
                    ck.count("dispositions observed")
                    if what != "sig" and r.kind == "ok":
                        ck.count("expected an error, got a result: " + key + what)
                    # Octave keeps SIGINT blocked (a thread of its own waits for it) and reinstalls its handling after every error
                    fine = l["handler"] == info["sig"] or (lang == "oct" and r.kind == "exc" and l["handler"] == "session")
                    if not fine or (lang == "py" and info["sig"] == "own" and l["delivered"] != "1"):
                        ck.violate(key + "disposition-" + what, "SIGINT handling was '%s' before the call and '%s' after it (%s)" % (info["sig"], l["handler"], r.kind), lang, c, info=cinfo)
            # begin/end pairs of every call with VF_DISP
            if not died:
                for a, b in zip(disp[0::2], disp[1::2]):
                    ck.count("dispositions observed")
                    if a[2] != b[2]:
                        ck.violate(key + "disposition", "SIGINT handler before the call %s, after it %s (%s)" % (a[2], b[2], a[1]), lang, None, info=dict(fn=fn))
                    for s, x, y in (("SIGTERM", a[3], b[3]), ("SIGABRT", a[4], b[4])):
                        if x != y:
                            ck.violate(key + "disposition-" + s, "%s handler before the call %s, after it %s" % (s, x, y), lang, None, info=dict(fn=fn))
            ck.sample(dict(fn=fn, lang=lang, interrupted=[dict(threads=i[3].get("threads"), delay=i[3].get("delay"), seconds_full=i[3].get("full")) for i in items if i[2] == "big"]))
    return ck.finish()

def asum(r):
    return [harness.asum(o) for o in r.outs if isinstance(o, np.ndarray)]

def close(fn, a, b):
    if not isinstance(a, np.ndarray) or np.shape(a) != np.shape(b):
        return False
    if fn in ("fftconv_p", "fftconv_ola", "sum_fftconv"):
        return bool(np.allclose(a, b, rtol=0, atol=1e-10 * max(np.abs(a).max(), 1e-300)))
    return False
