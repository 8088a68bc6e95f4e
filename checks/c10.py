"""Single-argument corruptions of valid calls: reported error, survival, unchanged next result."""
import shutil, tempfile
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from vf import build, gen, calls, work, harness, dasm
from vf.gen import row, F, U
from . import c21

RULE = ("one evaluation = one corrupted call executed in the sanitizer build between two identical valid calls; the corrupted one must end in an error of the calling language and the valid ones must "
        "agree bit for bit; or one documented spelling/optional argument that must be accepted; non-trivial always; distinct by function, language, corruption and arguments")

def vecs(a, n):
    """an n-element row of harmless values"""
    a = np.asarray(a).ravel()
    x = np.resize(a if a.size else np.ones(1), n) if n else np.zeros(0)
    return F(x.reshape(1, -1).astype(a.dtype if a.size else float))

BADTYPES_OCT = [("cell", work.Cell([np.eye(2)])), ("struct", work.Struct()), ("handle", work.FHandle())]
BADTYPES_PY = [("string", "abc"), ("dict", {}), ("function", len)]    # None is numpy's own NaN, not a malformed array

WORDS = {"focusing": gen.FOCS, "steering": gen.STEERS, "apodization": gen.APODS, "window": gen.APODS, "error level": ["stop", "warn", "ignore"], "method": dasm.METHODS + ["rca"], "device": ["cpu", "gpu"], "mode": ["=", "+=", "-="]}
def near(rng, label, n):
    """misspellings of the documented words of an option"""
    W = WORDS[label]
    L = ["hanning", "gaussian", "raised_cosine", "none", "x-y", "yx", "xyx", "error", "ignored", "warning", "saft_tfm", "rca_", "rca_row", "cpu0", "a" * 5000]
    own = []
    for w in W:
        own += [w + "x", w + " ", " " + w, w[:-1], w[1:], w.upper(), w.capitalize(), w + w, w + "\t", w + "_", w[0] + "o" + w[1:], w[::-1], w + "1"]
    for ws in WORDS.values():
        L += ws
    pick = lambda X, k: [X[i] for i in rng.choice(len(X), min(k, len(X)), replace=False)]
    return pick(sorted(set(own) - set(W) - {""}), 2 * n) + pick(sorted(set(L) - set(own) - set(W) - {""}), n)

def corrupt(rng, c, lang):
    """-> list of (name, args) that must be rejected"""
    A = list(c.oct_args if lang == "oct" else c.py[2])
    fn = c.fn.split(":")[0]
    L = []
    def sub(name, pos, val):
        if pos < len(A):
            B = list(A); B[pos] = val
            L.append((name, B))
    def wrong_len(pos, n, label, also=()):
        t = A[pos].dtype
        for k in sorted({n - 1, n + 1, 2 * n, 0} | set(also)):
            if k != n and k >= 0:
                sub("%s of %d elements" % (label, k), pos, vecs(A[pos], k).astype(t) if k else np.zeros((0, 0), t))
        if n > 1:
            sub("%s square" % label, pos, F(np.resize(A[pos].ravel(), (n, n)).astype(t)))
    def three(pos, label):
        M = A[pos]; t = M.dtype
        sub("%s with 2 columns" % label, pos, F(M[:, :2])); sub("%s with 4 columns" % label, pos, F(np.column_stack([M, M[:, :1]])))
        if M.shape[0] != 3:
            sub("%s transposed" % label, pos, F(M.T.copy()))
        sub("%s 3-D" % label, pos, F(np.stack([M, M], 2)))
        sub("%s a scalar" % label, pos, F(M[:1, :1]))
    def delay(pos, no):
        d = A[pos]; t = d.dtype
        for k in {no + 1, no - 1, 2 * no, 0}:
            if k not in (no, 1):
                sub("delay of %d for %d points" % (k, no), pos, vecs(d if d.size else np.zeros(1), k).astype(t) if k else np.zeros((0, 0), t))
        sub("delay a matrix", pos, F(np.resize(d.ravel(), (2, max(2, no))).astype(t)))
    def word(pos, label, extra=()):
        for s in ("foo", "", "OFF!", "stopp") + tuple(extra) + tuple(near(rng, label, 7)):
            sub("%s '%s'" % (label, s if len(s) < 40 else s[:10] + "..."), pos, s)
        sub("%s a number" % label, pos, row(1.0) if lang == "oct" else 1.0)
    nmin = nmax = len(A)
    if fn in calls.PYSIR:
        no = len(A[0])
        three(0, "Ro")
        P = c.info
        if fn in gen.ARR3:
            ng = len(P["geom"]); ne = len(P["G"])
            wrong_len(1, ng, "geometry"); three(2, "G"); sub("G of 0 elements", 2, F(np.zeros((0, 3)))); wrong_len(3, 4, "s_par"); delay(4, no); wrong_len(5, 3, "m_par")
            if fn == "dream_arr_cylind": sub("width of twice the diameter of curvature", 1, row(P["geom"][0], 4.0 * abs(P["geom"][2]), P["geom"][2]))
            word(6, "focusing"); word(8, "steering", ("x+y", "ud")); word(10, "apodization"); word(13, "error level", ("none",))
            if P["foc"][0] == "ud": wrong_len(7, ne, "ud delays")
            elif P["foc"][0] != "off": sub("focal distance of 2 elements", 7, row(10, 20)); sub("focal distance empty", 7, np.zeros((0, 0)))
            if P["steer"][0] != "off": wrong_len(9, 2, "steering angles")
            if P["apod"][0] == "ud": wrong_len(11, ne, "ud weights")
            elif P["apod"][0] in ("gauss", "raised"): sub("window parameter of 2 elements", 12, row(1, 2)); sub("window parameter empty", 12, np.zeros((0, 0)))
            nmin, nmax = 13, 14
        elif fn == "dream_arr_annu":
            ne = (np.size(P["G"]) + 1) // 2
            sub("even number of radii", 1, F(np.append(np.ravel(A[1]), np.max(A[1]) + 1).reshape(1, -1)))
            sub("radii a matrix", 1, F(np.resize(np.ravel(A[1]), (3, 3)))); sub("radii empty", 1, np.zeros((0, 0)))
            wrong_len(2, 4, "s_par"); delay(3, no); wrong_len(4, 3, "m_par"); word(5, "focusing"); word(7, "apodization"); word(10, "error level", ("none",))
            if P["foc"][0] == "ud": wrong_len(6, ne, "ud delays")
            if P["apod"][0] == "ud": wrong_len(8, ne, "ud weights")
            nmin, nmax = 10, 11
        else:
            ng = len(P["geom"])
            if fn == "dreamcylind": sub("width of twice the diameter of curvature", 1, row(P["geom"][0], 4.0 * abs(P["geom"][2]), P["geom"][2]))
            wrong_len(1, ng, "geometry"); wrong_len(2, 4, "s_par"); delay(3, no); wrong_len(4, 3, "m_par")
            if fn in gen.FOC2:
                word(5, "focusing"); word(7, "error level", ("none",))
                if P["foc"][0] not in ("off",): sub("focal distance of 2 elements", 6, row(10, 20)); sub("focal distance empty", 6, np.zeros((0, 0)))
                nmin, nmax = 7, 8
            else:
                word(5, "error level", ("none",))
                nmin, nmax = 5, 6
                if lang == "oct" and fn in ("dreamrect", "dreamcirc"):
                    L += [("device '%s'" % d, A + [d]) for d in ["foo", ""] + near(rng, "device", 5)]; L.append(("device a number", A + [row(1.0)]))
                    nmax = 7
    elif fn in calls.ANALYTIC:
        no = len(A[0])
        three(0, "Ro"); wrong_len(1, 2 if fn == "rect_sir" else 1, "geometry"); wrong_len(2, 2, "s_par"); delay(3, no); wrong_len(4, 2, "m_par")
        if fn == "scirc_sir": sub("n_int of 2 elements", 5, row(1, 2)); sub("n_int empty", 5, np.zeros((0, 0)))
        nmin = len(A); nmax = 6 if fn == "rect_sir" else len(A)
        if fn == "rect_sir": L.append(("device a number", A + [row(1.0)])); L += [("device '%s'" % d, A + [d]) for d in ["foo", ""] + near(rng, "device", 5)]
    elif fn == "dream_att":
        three(0, "Ro"); wrong_len(1, 2, "s_par"); delay(2, len(A[0])); wrong_len(3, 2, "m_par")
        for x in (0.0, .5): sub("response of length %g" % x, 1, row(A[1].ravel()[0], x))
    elif fn == "dream_apodwin":
        for s in ["foo", "", "hanning"] + near(rng, "window", 12): sub("window '%s'" % s[:20], 0, s)
        sub("window a number", 0, row(1.0))
        if A[0] != "ud": sub("length empty", 1, np.zeros((0, 0))); sub("length of 2 elements", 1, row(4, 5))
    elif fn == "das":
        no = len(A[3])
        three(1, "Gt"); three(3, "Ro")
        if c.info["method"] != "saft": three(2, "Gr")
        t = A[0].dtype
        sub("a data column too few", 0, F(A[0][:, :-1])) if A[0].shape[1] > 1 else None
        sub("a data column too many", 0, F(np.column_stack([A[0], A[0][:, :1]])))
        sub("data 3-D", 0, F(np.stack([A[0], A[0]], 2)))
        if lang == "oct":
            sub("dt of 2 elements", 4, np.array([[1, 2]], t)); sub("cp of 2 elements", 6, np.array([[1, 2]], t)); sub("dt empty", 4, np.zeros((0, 0), t))
            o = np.float32 if t == np.float64 else np.float64
            for p in (1, 3, 5): sub("argument %d of the other precision" % (p + 1), p, F(A[p].astype(o)))
        delay(5, no)
        word(7, "method", ("SAFT", "rca_", "tfmx")); word(8, "error level", ("none",))
        L.append(("device a number", A[:9] + [row(1.0) if lang == "oct" else 1.0]))
        if lang == "oct": L.append(("verbosity a number", A[:9] + ["cpu", row(1.0)]))
        nmin, nmax = (8, 11) if lang == "oct" else (8, 11)
        L += [("device '%s'" % d, A[:9] + [d]) for d in ["foo", ""] + near(rng, "device", 5)]
    elif fn == "das_uni":
        t = A[0].dtype
        wrong_len(1, 3, "Gt"); sub("Ro 2 x 3", 3, F(A[3][:2])); sub("Ro 3 x 2", 3, F(A[3][:, :2])); sub("Ro 4 x 3", 3, F(np.vstack([A[3], A[3][:1]]))); sub("Ro a row", 3, F(A[3].reshape(1, -1)))
        if c.info["method"] != "saft": 
            wrong_len(2, 3, "Gr")
            if len(c.info["Gr"]) == 1: L[:] = [x for x in L if x[0] != "Gr of 0 elements"]      # an empty one forces saft; the data match when there is one receiver
        sub("a data column too few", 0, F(A[0][:, :-1])) if A[0].shape[1] > 1 else None
        sub("a data column too many", 0, F(np.column_stack([A[0], A[0][:, :1]])))
        sub("dt of 2 elements", 4, np.array([[1, 2]], t)); sub("cp of 2 elements", 6, np.array([[1, 2]], t)); sub("dt empty", 4, np.zeros((0, 0), t)); sub("cp empty", 6, np.zeros((0, 0), t)); sub("delay empty", 5, np.zeros((0, 0), t))
        o = np.float32 if t == np.float64 else np.float64
        for p in (1, 3, 4, 5, 6): sub("argument %d of the other precision" % (p + 1), p, F(A[p].astype(o)))
        for w in ["foo", "", "SAFT", "rca_", "tfmx"] + near(rng, "method", 8): sub("method '%s'" % w[:20], 7, w)
        sub("method a number", 7, row(1.0))
        nmin = nmax = 8
    elif fn in calls.CONV:
        n = A[0].shape[1]
        if fn == "sum_fftconv":
            sub("H 2-D", 0, F(A[0][:, :, 0])); sub("too few signals", 1, F(A[1][:, :-1])); sub("too many signals", 1, F(np.column_stack([A[1], A[1]])))
            sub("H empty", 0, np.zeros((0, 0))); sub("U empty", 1, np.zeros((0, 0)))
        else:
            k = n + 1 if n > 1 else 3
            if n > 1:
                sub("wrong number of columns in B", 1, F(np.ones((4, n + 1)))); sub("fewer columns in B", 1, F(np.ones((4, n - 1)))) if n > 2 else None
            sub("A empty", 0, np.zeros((0, 0))); sub("B empty", 1, np.zeros((0, 0)))
            
            if n > 1: sub("A 3-D", 0, F(np.ones((3, n, 2)))) if min(A[1].shape) > 1 else None; sub("B 3-D", 1, F(np.ones((3, n, 2))))
        if fn == "fftconv_ola":
            sub("block length 0", 2, row(0.0)); sub("block length too large", 2, row(A[0].shape[0] + 1.0)); sub("block length negative", 2, row(-1.0)); sub("block length of 2 elements", 2, row(1, 1))
        if lang == "oct":
            B = list(A)
            rows = A[0].shape[0] + (A[1].shape[0] if fn == "sum_fftconv" else (A[1].size if min(A[1].shape) == 1 else A[1].shape[0])) - 1
            Y = F(np.zeros((rows, n)))
            big = rows * n > 1
            if big:
                L.append(("target with too few rows", B + [F(np.zeros((rows - 1, n)))])); L.append(("target with too many columns", B + [F(np.zeros((rows, n + 1)))]))
                L.append(("target a string", B + ["abc"])); L.append(("target a cell", B + [work.Cell([Y])]))
                L.append(("target single precision", B + [Y.astype(np.float32)])); L.append(("target complex", B + [Y + 1j]))
                if fn != "sum_fftconv":
                    L += [("mode '%s'" % d, B + [Y, d]) for d in ["*=", ""] + near(rng, "mode", 9)]; L.append(("mode a number", B + [Y, row(1.0)]))
                    if fn != "conv_p": L.append(("wisdom not a string", B + [Y, "=", row(1.0)])); L.append(("wisdom nonsense", B + [Y, "=", "nonsense"]))
            nmax = {"conv_p": 4, "fftconv_p": 5, "fftconv_ola": 6, "sum_fftconv": 4}[fn]
    elif fn in calls.INPLACE:
        M, N = A[0].shape
        r1, r2 = A[1][0]; c1, c2 = A[2][0]
        sub("rows beyond the target", 1, row(M, M + r2 - r1 + 1) if r2 == r1 else row(r1 + M, r2 + M)); sub("row 0", 1, row(0, r2 - r1)); sub("negative row", 1, row(-1, r2))
        sub("columns beyond the target", 2, row(c1 + N, c2 + N)); sub("column 0", 2, row(0, c2 - c1))
        if r2 > r1: sub("reversed rows", 1, row(r2, r1))
        if c2 > c1: sub("reversed columns", 2, row(c2, c1))
        sub("row range of 1 element", 1, row(r1)); sub("row range of 3 elements", 1, row(r1, r2, r2)); sub("column range of 3 elements", 2, row(c1, c2, c2))
        sub("source with an extra row", 3, F(np.ones((int(r2 - r1) + 2, int(c2 - c1) + 1)))); sub("source with an extra column", 3, F(np.ones((int(r2 - r1) + 1, int(c2 - c1) + 2)))); sub("source empty", 3, np.zeros((0, 0)))
        sub("target single precision", 0, A[0].astype(np.float32)); sub("target a string", 0, "abc")
    # numeric arguments of a non-numeric type
    for name, bad in (BADTYPES_OCT if lang == "oct" else BADTYPES_PY):
        for p, a in enumerate(A):
            if isinstance(a, np.ndarray) or (lang == "py" and not isinstance(a, str)):
                if fn in gen.ARR3 and (p == 11 and c.info["apod"][0] != "ud" or p == 12 and c.info["apod"][0] in ("off", "ud") or p == 7 and c.info["foc"][0] == "off" or p == 9 and c.info["steer"][0] == "off"):
                    continue   # not used by the chosen method
                if fn == "dream_arr_annu" and (p == 8 and c.info["apod"][0] != "ud" or p == 9 and c.info["apod"][0] in ("off", "ud") or p == 6 and c.info["foc"][0] == "off"):
                    continue
                if fn in gen.FOC2 and p == 6 and c.info["foc"][0] == "off" or fn in ("das", "das_uni") and p == 2 and c.info["method"] == "saft":
                    continue
                if fn == "dream_apodwin" and p == 2 and A[0] in ("off", "ud", "triangle", "simply"):
                    continue
                sub("argument %d a %s" % (p + 1, name), p, bad)
    for k in {0, 1, nmin - 1}:
        if k < nmin:
            L.append(("%d arguments" % k, A[:k]))
    pad = A + ["cpu"] * (nmax - len(A)) if lang == "oct" else A
    L.append(("too many arguments", (A + ["cpu", "verbose"][: max(0, nmax - len(A))] if fn == "das" else pad)[:nmax] + [row(1.0), row(1.0)] + ([row(1.0)] if lang == "py" else [])))
    return L

def accepted(rng, c, lang):
    """documented optional arguments and spellings -> list of (name, args, same_result)"""
    A = list(c.oct_args if lang == "oct" else c.py[2])
    fn = c.fn.split(":")[0]
    L = []
    if fn in calls.PYSIR:
        if c.info["err"] == "stop": L.append(("default error level", A[:-1], True))
        if lang == "oct" and fn in ("dreamrect", "dreamcirc"): L += [("device cpu", A + ["cpu"], True), ("device gpu without OpenCL", A + ["gpu"], True)]
    if fn == "rect_sir": L += [("device cpu", A + ["cpu"], True), ("device gpu without OpenCL", A + ["gpu"], True)]
    if fn == "das":
        L.append(("device cpu", A[:9] + ["cpu"], True))
        L.append(("device gpu without OpenCL", A[:9] + ["gpu"], True))
        L.append(("device cpu, verbose", A[:9] + ["cpu", "verbose"], True))
        L.append(("device gpu without OpenCL, verbose", A[:9] + ["gpu", "verbose"], True))
        L.append(("no optional arguments", A[:8], None))
    return L

def exec_group(R, lang, seq, asan=True):
    return R.run(lang, seq, par=1, hang_s=90, max_crash=8)

def run():
    ck = harness.Check("C10", RULE, ["numeric strings where a matrix is expected are accepted by Octave's own conversion and are not counted as malformed",
                                     "a wrong number of output arguments is only tried in Octave"])
    R0 = work.Runner("asan", calls.targets(calls.EVERY))
    m = 8 if ck.thorough else 2
    jobs = []
    for fn in calls.EVERY:
        for lang in ("oct", "py"):
            rng = ck.subrng(fn, lang)
            seq = []
            for i in range(m if not fn.startswith("das:") else max(1, m // 2)):
                kw = {}
                if fn in calls.PYSIR:
                    kw = dict(fit=True, alpha=0.0 if rng.random() < .8 else 1.0)
                    if fn in gen.ARR3: kw.update(foc=["ud", "xy"][i % 2], steer=["xy", "x"][i % 2], apod=["ud", "gauss"][i % 2])
                    elif fn == "dream_arr_annu": kw.update(foc=["ud", "xy"][i % 2], apod=["ud", "off"][i % 2])
                    elif fn in gen.FOC2: kw.update(foc=["x", "x+y"][i % 2])
                c = calls.make(rng, fn, int(rng.choice([2, 4, 5, 7])) if fn not in calls.INPLACE else None, **kw)
                if lang not in c.langs():
                    break
                seq.append((c, corrupt(rng, c, lang), accepted(rng, c, lang)))
            if seq:
                jobs.append((fn, lang, seq))
    # the device-only function, in the build with OpenCL
    rng = ck.subrng("das_uni")
    seq = []
    for i in range(2 * m):
        P, case = c21.uni_case(rng, dasm.METHODS[i % 4] if i > 3 else ["tfm", "saft", "rca_coltx", "tfm"][i], "df"[i % 2])
        c = calls.Call("das_uni", case["args"], None, n=len(P["Ro"]), nout=1, info={k: v for k, v in P.items() if k != "Y"}, exact=True)
        seq.append((c, corrupt(rng, c, "oct"), []))
    jobs.append(("das_uni", "oct", seq))
    tmp = tempfile.mkdtemp(prefix="pocl", dir=build.BUILD)
    RU = c21.runner(tmp)
    def one(job):
        fn, lang, seq = job
        R = RU if fn == "das_uni" else R0
        cases, meta = [], []
        for c, bad, good in seq:
            v = c.case(lang, post=c.nout == 0)
            cases.append(v); meta.append(("valid", c, None))
            for name, a in bad:
                b = dict(v, args=a)
                if "target" in name or "mode" in name or "wisdom" in name: b["nout"] = 0
                cases.append(b); meta.append(("bad", c, name))
                cases.append(v); meta.append(("valid", c, name))
            if lang == "oct":
                b = dict(v, nout=v["nout"] + 2 if c.fn != "fftconv_p" else 4)
                cases.append(b); meta.append(("bad", c, "too many outputs"))
                cases.append(v); meta.append(("valid", c, "too many outputs"))
            for name, a, eq in good:
                cases.append(dict(v, args=a)); meta.append(("good", c, (name, eq)))
        return cases, meta, exec_group(R, lang, cases)
    with ThreadPoolExecutor(8) as ex:
        for (fn, lang, seq), (cases, meta, res) in zip(jobs, ex.map(one, jobs)):
            ref = {}
            for case, (what, c, name), r in zip(cases, meta, res):
                key = "%s:%s:" % (fn.split(":")[0], lang)
                info = dict(call=gen.brief(case["args"]), corruption=name)
                if r.kind == "skipped":
                    ck.skip("skipped"); continue
                if r.kind in ("crash", "hang"):
                    ck.violate(key + r.kind + ":" + str(name), "%s: %s" % (name, harness.show(r)), lang, case, "cl" if fn == "das_uni" else "asan", info); continue
                if what == "bad":
                    ck.saw((fn, lang, name, repr(info["call"])))
                    ck.count("corruptions (%s)" % lang)
                    if r.kind == "ok":
                        ck.violate(key + "accepted:" + str(name), "%s: accepted, result of shape %s" % (name, [np.shape(o) for o in r.outs]), lang, case, "cl" if fn == "das_uni" else "asan", info)
                elif what == "good":
                    nm, eq = name
                    ck.saw((fn, lang, "good", nm, repr(info["call"])))
                    ck.count("documented variants (%s)" % lang)
                    if r.kind != "ok":
                        if eq is None and r.kind == "exc" and "out-of-bounds" in r.msg: continue
                        ck.violate(key + "rejected:" + nm, "%s: %s" % (nm, harness.show(r)), lang, case, "cl" if fn == "das_uni" else "asan", info)
                    elif eq and id(c) in ref and not calls.agree(c, ref[id(c)].out, r.out):
                        ck.violate(key + "differs:" + nm, "%s changes the result" % nm, lang, case, "cl" if fn == "das_uni" else "asan", info)
                else:
                    if r.kind != "ok":
                        ck.violate(key + "valid-failed", "a valid call after '%s': %s" % (name, harness.show(r)), lang, case, "cl" if fn == "das_uni" else "asan", info); continue
                    p = ref.setdefault(id(c), r)
                    if p is not r:
                        ck.count("valid calls after a rejected one")
                        a = [x for x in p.post if isinstance(x, np.ndarray)] if c.nout == 0 else p.outs
                        b = [x for x in r.post if isinstance(x, np.ndarray)] if c.nout == 0 else r.outs
                        if not all(calls.agree(c, x, y) for x, y in zip(a, b)):
                            ck.violate(key + "next-differs", "the valid call after '%s' gives another result" % name, lang, case, "cl" if fn == "das_uni" else "asan", info)
            ck.sample(dict(fn=fn, lang=lang, corruptions=[n for n, a in seq[0][1]]))
    shutil.rmtree(tmp, ignore_errors=True)
    return ck.finish()
