"""The OpenCL device path (run on pocl) against the same references as the CPU path."""
import os, shutil, tempfile
import numpy as np
from vf import build, gen, oracle, work, harness, dasm
from vf.gen import U, row, F
from . import sirval, c17

RULE = ("one evaluation = one call with device 'gpu' (das_uni: device only) whose result is compared with the reference model of the CPU path, with the same envelopes for ties; "
        "non-trivial when a contribution lies in the window; distinct by function, method, precision, arguments and language")
POINTS = [1, 2, 3, 7, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200]

def sir_cases(ck, fn, n):
    rng = ck.subrng(fn)
    L = []
    for i in range(n):
        t = rng.random()
        al = 0.0 if rng.random() < .8 else U(rng, .2, 4)
        fit = bool(rng.random() < .5)
        no = int(rng.choice(POINTS)) if al == 0 else int(rng.choice([1, 2, 5]))
        P = gen.gen_sir(rng, fn, no=no, alpha=al, fit=fit, nt=None if fit else int(rng.choice([1, 5, 16, 64, 100])), per_point_delay=bool(rng.random() < .3),
                        err=str(rng.choice(["stop", "warn", "ignore"] if fit else ["ignore"])))
        while sirval.cells(P) * len(P["Ro"]) > 60000 and len(P["Ro"]) > 1:
            k = len(P["Ro"]) // 2
            P["Ro"] = P["Ro"][:k]
            if np.size(P["delay"]) > 1:
                P["delay"] = P["delay"].ravel()[:k].reshape(-1, 1)
        L.append(P)
    return L

def with_device(c, *dev):
    return dict(c, args=list(c["args"]) + list(dev))

def rect_cases(ck, n, rng=None):
    rng = ck.subrng("rect_sir") if rng is None else rng
    L = []
    for i in range(n):
        g = [U(rng, .5, 20), U(rng, .5, 20)]
        no, nt = int(rng.choice(POINTS)), int(rng.choice([1, 5, 16, 64, 200]))
        dt, cp, v = U(rng, .01, .1), U(rng, 300, 6500), U(rng, .2, 4)
        Ro = np.array([c17.point(rng, "rect_sir", g)[0][:2] + [U(rng, .5, 60)] for _ in range(no)])
        t0 = np.sqrt((Ro ** 2).sum(1)) * 1e3 / cp
        d = t0 - nt * dt * rng.uniform(0, .8, no) if no > 1 and rng.random() < .3 else np.array([t0.min() - nt * dt * U(rng, 0, .5)])
        if rng.random() < .2:
            d = np.array([Ro[0, 2] * 1e3 / cp])
        args = [F(Ro), row(*g), row(dt, nt), d.reshape(-1, 1), row(v, cp), "gpu"]
        L.append((("rect_sir", Ro, g, dt, nt, d, v, cp, 0), dict(fn="rect_sir", args=args, nout=1)))
    return L

def uni_case(rng, method, prec, saft_by_empty=False):
    """uniform grids with steps exact in binary, so that every count is unambiguous in either precision"""
    q = lambda lo, hi: float(rng.integers(lo, hi)) / 8
    P = dict(fn="das_uni", method=method, prec=prec, err="ignore")
    nt, nr = int(rng.choice([1, 2, 3, 5, 8])), int(rng.choice([1, 2, 4, 7]))
    gt = [q(-40, 8), q(1, 16), 0]; gt[2] = gt[0] + (nt - 1) * gt[1]
    gr = [q(-40, 8), q(1, 16), 0]; gr[2] = gr[0] + (nr - 1) * gr[1]
    N = [int(rng.choice([1, 2, 3, 5, 8, 9])) for _ in range(3)]
    R = []
    for k in range(3):
        lo, st = (q(-40, 16) if k < 2 else q(8, 80)), q(1, 12)
        R.append([lo, st, lo + (N[k] - 1) * st])
    ext = rng.random(3) < .3          # the end need not be on the grid
    for k in range(3):
        if ext[k]: R[k][2] += R[k][1] / 2
    ax = [R[k][0] + np.arange(N[k]) * R[k][1] for k in range(3)]
    # y fastest, then z, then x
    X, Z, Y = np.meshgrid(ax[0], ax[2], ax[1], indexing="ij")
    P["Ro"] = np.column_stack([X.ravel(), Y.ravel(), Z.ravel()])
    z = lambda n: np.zeros(n)
    t, r = gt[0] + np.arange(nt) * gt[1], gr[0] + np.arange(nr) * gr[1]
    P["Gt"] = np.column_stack([t, z(nt), z(nt)])
    P["Gr"] = np.zeros((0, 3)) if method == "saft" else np.column_stack([r, z(nr), z(nr)]) if method == "tfm" else np.column_stack([z(nr), r, z(nr)])
    fl = (lambda x: float(np.float32(x))) if prec == "f" else float
    P["cp"] = fl((1500.0 if rng.random() < .3 else U(rng, 300, 6500)))
    T = dasm.times(dict(P, dt=1.0, delay=np.zeros(1), alen=1))
    hi = float(T.max()) + 1e-3
    P["alen"] = int(rng.choice([1, 5, 20, 100, 300]))
    P["dt"] = fl(hi / P["alen"] * U(rng, .4, 1.3))
    P["delay"] = np.array([[0.0 if rng.random() < .4 else U(rng, -.5, .3) * hi]])
    dt = dasm.dtp(P)
    P["delay"] = P["delay"].astype(dt)
    P["Y"] = dasm.data(P, rng)
    a = lambda x: np.asarray(x, float).astype(dt)
    G2 = np.zeros((0, 0), dt) if method == "saft" and (saft_by_empty or rng.random() < .5) else F(a([gr]))
    m = "tfm" if saft_by_empty else method
    args = [F(P["Y"]), F(a([gt])), G2, F(a(R)), a([[P["dt"]]]), F(P["delay"]), a([[P["cp"]]]), m]
    return P, dict(fn="das_uni", args=args, nout=1)

def run():
    ck = harness.Check("C21", RULE, ["the kernels run on pocl's CPU device, reported to DREAM as a GPU", "cells, pairs and arrivals within rounding of a sample boundary may fall either way",
                                     "a device path that computes parts of its work on the CPU is accepted"])
    tmp = tempfile.mkdtemp(prefix="pocl", dir=build.BUILD if os.path.isdir(build.BUILD) else None)
    try:
        return body(ck, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def runner(tmp, targets=("oct_das_uni",)):
    return work.Runner("cl", list(targets), preload=[build.native()["clshim"]],
                       env={"DREAM_CL_KERNELS": os.path.join(build.MIRROR, "opencl"), "POCL_CACHE_DIR": tmp, "POCL_MAX_PTHREAD_COUNT": "2"})

def body(ck, tmp):
    sirval.FLAVOUR = "cl"
    R = runner(tmp, ["oct_das", "oct_das_uni", "oct_dreamrect", "oct_dreamcirc", "oct_rect_sir", "py_das", "py_das_f"])
    m = 8 if ck.thorough else 1
    occ, pyc, jobs = [], [], {"oct": [], "py": []}
    def add(lang, case, judge):
        jobs[lang].append((case, judge))

    # surface sums
    for fn in ("dreamrect", "dreamcirc"):
        cs = sir_cases(ck, fn, 90 * m)
        exp = harness.pmap(sirval.expected, cs)
        for P, cols in zip(cs, exp):
            if isinstance(cols, str):
                ck.skip("model"); continue
            c = with_device(gen.oct_sir(P), "gpu")
            def judge(r, c=c, P=P, cols=cols):
                ck.count("per-point delays or lossy", int(np.size(P["delay"]) > 1 or P["m"][2] > 0))
                sirval.judge(ck, P, dict(device="gpu"), cols, "oct", r, c, 1e-9, sum(int(x.hit.any()) for x in cols))
            add("oct", c, judge)
        # the out-of-window policy
        rng = ck.subrng("policy", fn)
        for err in ("stop", "warn"):
            P = gen.gen_sir(rng, fn, no=64, fit=False, nt=5, err=err, per_point_delay=False)
            P["delay"] = P["delay"] + 1e4
            c = with_device(gen.oct_sir(P), "gpu")
            def judge(r, c=c, P=P, err=err, fn=fn):
                ck.count("policy calls")
                if r.kind == "skipped": return
                bad = (r.kind == "ok") if err == "stop" else (r.kind == "ok" and "Warning" not in (r.stdout or ""))
                if bad:
                    ck.violate("%s:policy:%s" % (fn, err), "contributions outside the window with '%s' on the device: %s" % (err, harness.show(r)), "oct", c, "cl", P)
            add("oct", c, judge)

    # analytic rectangle
    rc = rect_cases(ck, 90 * m)
    for (spec, c), b in zip(rc, harness.pmap(c17.bounds, [x[0] for x in rc])):
        def judge(r, spec=spec, c=c, b=b):
            lo, hi, st = b
            ck.count("rect_sir oct")
            info = dict(Ro=spec[1][:4], g=spec[2], dt=spec[3], nt=spec[4], delay=spec[5][:3], v=spec[6], cp=spec[7], No=len(spec[1]))
            if r.kind == "skipped":
                ck.skip("skipped"); return
            ck.saw(("rect_sir", repr(spec)), nontrivial=bool((hi > 1e-9).any()))
            if r.kind != "ok":
                ck.violate("rect_sir:" + r.kind, harness.show(r), "oct", c, "cl", info); return
            out = np.asarray(r.out, float)
            if out.shape != lo.shape:
                ck.violate("rect_sir:shape", "shape %s, expected %s" % (out.shape, lo.shape), "oct", c, "cl", info); return
            bad = np.argwhere(~((out >= lo) & (out <= hi)))
            if len(bad):
                i, j = bad[0]
                ck.violate("rect_sir:value", "sample %d of point %d: got %.9g expected %.9g..%.9g, %d samples differ" % (i, j, out[i, j], lo[i, j], hi[i, j], len(bad)), "oct", c, "cl", info)
        add("oct", c, judge)

    # beamforming
    def das_judge(P, c, lang, tag=""):
        def judge(r):
            E = dasm.expected(P)
            if r.kind == "skipped":
                ck.skip("skipped"); return
            ck.saw((tag, lang, repr(P)), nontrivial=E.inside > 0)
            key = "%s:%s:%s:%s:" % (P["fn"], P["method"], P["prec"], lang)
            ck.count("%s %s %s %s" % (P["fn"], P["method"], P["prec"], lang)); ck.count("pixels", E.h.size)
            info = {k: v for k, v in P.items() if k != "Y"}
            if r.kind != "ok":
                ck.violate(key + r.kind, harness.show(r), lang, c, "cl", info); return
            x = dasm.cmp(r.out, E)
            if x:
                ck.violate(key + "value" + tag, x, lang, c, "cl", info)
            elif np.asarray(r.out).dtype != dasm.dtp(P):
                ck.violate(key + "type", "result type %s" % np.asarray(r.out).dtype, lang, c, "cl", info)
        return judge
    for met in dasm.METHODS:
        for prec in "df":
            rng = ck.subrng("das", met, prec)
            for i in range(22 * m):
                fit = bool(rng.random() < .5)
                P = dasm.gen_das(rng, met, prec, no=int(rng.choice(POINTS + [500])), fit=fit, err=str(rng.choice(["stop", "warn", "ignore"])) if fit else "ignore")
                if fit and P["err"] != "ignore":
                    E = dasm.expected(P)
                    if E.certain_out.sum() + E.maybe_out.sum():
                        P["err"] = "ignore"
                c = with_device(dasm.oct_das(P), *(["gpu"] if rng.random() < .7 else ["gpu", str(rng.choice(["verbose", "quiet"]))]))
                if met == "saft" and rng.random() < .3:
                    c["args"][7] = "tfm"; c["args"][2] = np.zeros((0, 0), dasm.dtp(P))
                add("oct", c, das_judge(P, c, "oct"))
                c = with_device(dasm.py_das(P), *(["gpu"] if rng.random() < .7 else ["gpu", "verbose"]))
                add("py", c, das_judge(P, c, "py"))
                if rng.random() < .3:       # CPU calls in between share the session's object
                    Q = dict(P, err="ignore")
                    c = with_device(dasm.oct_das(Q), "cpu"); add("oct", c, das_judge(Q, c, "oct", ":cpu"))
                    c = with_device(dasm.py_das(Q), "cpu"); add("py", c, das_judge(Q, c, "py", ":cpu"))
            for i in range(4 * m):
                P = dasm.gen_das(rng, met, prec, no=4000, long=True, err="ignore")
                for lang, f in (("oct", dasm.oct_das), ("py", dasm.py_das)):
                    c = with_device(f(P), "gpu")
                    add(lang, c, das_judge(P, c, lang))
            for i in range(30 * m):
                P, c = uni_case(rng, met, prec)
                add("oct", c, das_judge(P, c, "oct"))
        # policy
        rng = ck.subrng("policy", met)
        for lang in ("oct", "py"):
            for err in ("stop", "warn"):
                P = dasm.gen_das(rng, met, "d", no=64, fit=False, err=err)
                P["delay"] = np.array([[1e4]])
                c = with_device((dasm.oct_das if lang == "oct" else dasm.py_das)(P), "gpu")
                def judge(r, c=c, P=P, err=err, lang=lang):
                    ck.count("policy calls")
                    if r.kind == "skipped": return
                    if (r.kind == "ok") if err == "stop" else (r.kind == "ok" and "Warning" not in (r.stdout or "")):
                        ck.violate("das:policy:%s" % err, "data outside the A-scans with '%s' on the device (%s): %s" % (err, lang, harness.show(r)), lang, c, "cl", {k: v for k, v in P.items() if k != "Y"})
                add(lang, c, judge)
    rng = ck.subrng("uni")
    for i in range(6 * m):
        P, c = uni_case(rng, "saft", "df"[i % 2], True)
        add("oct", c, das_judge(P, c, "oct", ":empty"))
    # per-point delays of das_uni
    for met in dasm.METHODS:
        P, c = uni_case(rng, met, "d")
        n = len(P["Ro"])
        if n > 1:
            P["delay"] = F(np.linspace(-.4, .4, n).reshape(-1, 1) * P["dt"] * P["alen"])
            c["args"][5] = P["delay"]
            j = das_judge(dict(P), c, "oct")
            def judge(r, c=c, P=P, met=met):
                E = dasm.expected(P)
                ck.count("das_uni per-point delays")
                if r.kind == "ok" and dasm.cmp(r.out, E):
                    ck.violate("das_uni:per-point delays", "method %s: %s" % (met, dasm.cmp(r.out, E)), "oct", c, "cl", {k: v for k, v in P.items() if k != "Y"})
                elif r.kind in ("crash", "hang"):
                    ck.violate("das_uni:%s" % r.kind, harness.show(r), "oct", c, "cl")
            add("oct", c, judge)

    # failing devices: an error or the right result, and the session goes on
    tail = {"oct": [], "py": []}
    bad = os.path.join(tmp, "bad"); os.makedirs(bad)
    for f in ("dreamrect", "dreamcirc", "rect_sir", "das_float", "das_double", "das_uni_float", "das_uni_double"):
        open(os.path.join(bad, f + ".cl"), "w").write("__kernel void oops(\n")
    faults = [{"DREAM_CL_KERNELS": None}, {"DREAM_CL_KERNELS": os.path.join(tmp, "none")}, {"DREAM_CL_KERNELS": bad}] + [
              {"VF_CLFAIL": x} for x in ("nogpu", "clBuildProgram", "clCreateBuffer", "clCreateKernel", "clEnqueueWriteBuffer", "clEnqueueNDRangeKernel", "clEnqueueReadBuffer")]
    rng = ck.subrng("faults")
    def session(lang, make):
        """a faulty call, possibly after a good one that left its set-up behind, and a good one"""
        for k in rng.permutation(len(faults)):
            env = faults[k]
            name = list(env)[0] + "=" + str(list(env.values())[0]).replace(tmp, "")
            c, val, info = make()
            n = ["bad", "good"] if rng.random() < .6 else ["good", "bad", "good"]
            for w in n:
                cc = dict(c, env=env) if w == "bad" else c
                def judge(r, cc=cc, val=val, info=info, w=w, name=name, fn=c["fn"]):
                    if r.kind == "skipped":
                        ck.skip("skipped"); return
                    ck.saw((w, name, lang, fn, repr(info)), nontrivial=w == "bad")
                    if w == "bad":
                        ck.count("faulty calls", 1); ck.count("faulty calls rejected", int(r.kind == "exc"))
                    if r.kind == "ok":
                        x = val(r.out)
                        if x:
                            ck.violate("%s:fault:%s" % (fn, "silent" if w == "bad" else "after"), "%s (%s, %s): %s" % (name, w, lang, x), lang, cc, "cl", info)
                    elif r.kind != "exc" or w == "good":
                        ck.violate("%s:fault:%s" % (fn, r.kind), "%s (%s, %s): %s" % (name, w, lang, harness.show(r)), lang, cc, "cl", info)
                tail[lang].append((cc, judge))
    def mk_sir(fn):
        def make():
            while 1:
                P = gen.gen_sir(rng, fn, no=int(rng.choice([1, 3, 64])), alpha=0.0, fit=True, err="ignore", per_point_delay=False)
                cols = sirval.expected(P)
                if not isinstance(cols, str) and sum(int(x.hit.any()) for x in cols):
                    break
            c = with_device(gen.oct_sir(P), "gpu")
            def val(out):
                if np.shape(out) != (int(P['s'][3]), len(cols)):
                    return "shape %s" % (np.shape(out),)
                for j, x in enumerate(cols):
                    t = oracle.cmp_col(np.asarray(out)[:, j], x, 1e-9)
                    if t:
                        return "point %d: %s" % (j, t)
                return None
            return c, val, P
        return make
    def mk_rect():
        while 1:
            spec, c = rect_cases(ck, 1, rng)[0]
            b = c17.bounds(spec)
            if (b[1] > 1e-9).any() and spec[5].size == 1:
                break
        def val(out):
            z = np.asarray(out, float)
            return "shape" if z.shape != b[0].shape else "values differ" if not ((z >= b[0]) & (z <= b[1])).all() else None
        return c, val, dict(g=spec[2])
    def mk_das(lang):
        def make():
            P = dasm.gen_das(rng, str(rng.choice(dasm.METHODS)), str(rng.choice(["d", "f"])), no=int(rng.integers(1, 40)), fit=True, err="ignore")
            P["delay"] = np.array([[0.0]]).astype(dasm.dtp(P))
            E = dasm.expected(P)
            return with_device((dasm.oct_das if lang == "oct" else dasm.py_das)(P), "gpu"), lambda out: dasm.cmp(out, E), {k: v for k, v in P.items() if k != "Y"}
        return make
    def mk_uni():
        P, c = uni_case(rng, str(rng.choice(dasm.METHODS)), str(rng.choice(["d", "f"])))
        E = dasm.expected(P)
        return c, lambda out: dasm.cmp(out, E), {k: v for k, v in P.items() if k != "Y"}
    for _ in range(m):
        for fn in ("dreamrect", "dreamcirc"):
            session("oct", mk_sir(fn))
        session("oct", mk_rect); session("oct", mk_das("oct")); session("oct", mk_uni); session("py", mk_das("py"))

    order = {l: ck.rng.permutation(len(jobs[l])) for l in jobs}
    J = {l: [jobs[l][i] for i in order[l]] + tail[l] for l in jobs}
    rp, ro = harness.both(R, [c for c, _ in J["py"]], [c for c, _ in J["oct"]])
    for l, rs in (("py", rp), ("oct", ro)):
        for (c, judge), r in zip(J[l], rs):
            judge(r)
        for c, _ in J[l][:2]:
            ck.sample(dict(lang=l, fn=c["fn"], args=c["args"][1:]))
    return ck.finish()
