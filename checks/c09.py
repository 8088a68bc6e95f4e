"""Sanitizers, valgrind and heap-fill comparison over hostile but well-formed calls."""
import re
import numpy as np
from vf import gen, calls, work, harness, dasm
from vf.gen import row, F, U

RULE = ("one evaluation = one call executed under AddressSanitizer+UBSan (also float-to-integer conversions), or under valgrind memcheck, or twice with different fill patterns of fresh heap memory "
        "and compared bit for bit; non-trivial when the call returned a result; distinct by arguments, language and instrument")

def pick(rng, *v):
    return v[int(rng.integers(len(v)))]

def hostile_sir(rng, fn):
    """a random call with one or more extreme but finite values"""
    small = rng.random() < .5
    P = gen.gen_sir(rng, fn, no=int(rng.choice([1, 1, 2, 3, 5, 9, 17])), fit=bool(rng.random() < .4), alpha=0.0 if rng.random() < .6 else U(rng, .01, 5),
                    err=str(rng.choice(["stop", "warn", "ignore", "ignore", "ignore"])))
    dx, dy, dt, nt = P["s"]
    v, cp, al = P["m"]
    no = len(P["Ro"])
    def d_set(d):
        d = np.asarray(d, float).ravel()
        P["delay"] = d.reshape(-1, 1) if rng.random() < .5 else d.reshape(1, -1)
    for _ in range(int(rng.integers(0, 3))):
        k = int(rng.integers(12))
        if k == 0: P["Ro"][int(rng.integers(no))] = pick(rng, [0, 0, 0], [1e6, 0, 1], [0, 0, 1e6], [0, 0, -1e-9], [dx / 2, dy / 2, 0], [-1e5, 1e5, -1e5])
        elif k == 1: d_set(rng.uniform(-1, 1, no if rng.random() < .5 else 1) * pick(rng, 1, 1e3, 1e6))
        elif k == 2: nt = int(rng.choice([1, 2, 3, 4]))
        elif k == 3: dt = dt * float(pick(rng, 1e-3, 1e3, 1e-1))
        elif k == 4: al = float(pick(rng, 1e-12, 1e-16, 1e3, 50)) if nt < 200 else al
        elif k == 5: v = float(pick(rng, 0.0, -1.0, 1e9))
        elif k == 6 and "geom" in P and fn not in ("dreamsphere",):
            P["geom"][0] = float(pick(rng, 0.0, dx * .1, dx * .5, dx * 1.5))
            if gen.oracle.KIND.get(fn) in ("rect", "cylind") and rng.random() < .5:
                P["geom"][1] = float(pick(rng, 0.0, dy * .1, dy * .5))
        elif k == 7 and "foc" in P:
            if P["foc"][0] == "ud": P["foc"] = ("ud", np.asarray(P["foc"][1]) * float(pick(rng, 1e3, -1e6, 0)))
            else: P["foc"] = (P["foc"][0], row(pick(rng, 1e-6, 1e7, -20.0, 0.0)))
        elif k == 8 and "steer" in P: P["steer"] = (P["steer"][0], row(pick(rng, 0, 89.9, -89.9, 90, 400), pick(rng, 0, 89.9, -90, 1e4)))
        elif k == 9 and "apod" in P: P["apod"] = (P["apod"][0], np.asarray(P["apod"][1]) * float(pick(rng, 0, 1e6, -1)), float(pick(rng, 0, 1e3, -5, 1e-9)))
        elif k == 10 and fn == "dream_arr_annu":
            G = np.asarray(P["G"], float).ravel()
            P["G"] = pick(rng, np.sort(G), np.full(G.size, G[-1]), np.concatenate([[0.0] * (G.size - 1), [G[-1]]]), G * .3)
        elif k == 10 and "G" in P: P["G"] = np.asarray(P["G"]) * pick(rng, 0.0, 1e3, 1e-6)
        elif k == 11: cp = float(pick(rng, 1.0, 1e5, 20))
    P["s"] = (dx, dy, dt, nt); P["m"] = (v, cp, al)
    a = gen.sir_args(P) + [P["err"]]
    return calls.Call(fn, a, (fn, fn, a), n=no, nout=2, info=P, lossy=al > 0)

def hostile_das(rng, fn):
    c = calls.das(rng, fn, no=int(rng.choice([1, 2, 3, 9, 17])))
    _, meth, prec = fn.split(":")
    t = np.float32 if prec == "f" else float
    for args in (c.oct_args, c.py[2]):
        rs = np.random.default_rng(int(np.asarray(c.oct_args[3]).size * 7 + len(c.oct_args[7])))
    k = int(rng.integers(6))
    def put(pos, val):
        c.oct_args[pos] = val; c.py[2][pos] = val
    if k == 0: put(5, F(np.asarray(c.oct_args[5]) + t(pick(rng, -1e3, 1e3, 1e6, -1e6))))
    elif k == 1:
        R = np.array(c.oct_args[3]); R[0] = np.asarray(c.oct_args[1])[0]; put(3, F(R))
    elif k == 2:
        R = np.array(c.oct_args[3]) * t(pick(rng, 1e4, 0, -1)); put(3, F(R))
    elif k == 3: put(0, F(np.asarray(c.oct_args[0])[:1]))
    e = str(rng.choice(["stop", "warn", "ignore"]))
    c.oct_args[8] = e; c.py[2][8] = e
    return c

def edge_das(rng, fn):
    """the first or last column's sample exactly one before or behind the data"""
    _, m, p = fn.split(":")
    P = dasm.gen_das(rng, m, p, no=1, err="ignore")
    T = dasm.times(P)[0]
    k = 2 if m == "saft" else 1
    j, q = pick(rng, (-1, P["alen"] + .5), (-1, P["alen"] + .5), (0, -1.5), (-1, P["alen"] - .5), (0, .5))
    P["delay"] = row((q * P["dt"] - T[j]) / k).astype(np.float32 if p == "f" else float)
    o = dasm.oct_das(P); y = dasm.py_das(P)
    return calls.Call(fn, o["args"], (y["mod"], y["fn"], y["args"]), rows=(3,), dl=5, n=1, nout=2, info={q: v for q, v in P.items() if q != "Y"})

def hostile_analytic(rng, fn):
    c = calls.analytic(rng, fn)
    R = c.oct_args[0]
    for _ in range(int(rng.integers(0, 3))):
        k = int(rng.integers(7))
        n = int(rng.integers(len(R)))
        g = c.oct_args[1].ravel()
        if k == 0: R[n] = [0, 0, pick(rng, 5.0, 1e-9, 0.0)]
        elif k == 1: R[n, :2] = [g[0] / 2, g[-1] / 2] if fn == "rect_sir" else [g[0], 0]
        elif k == 2: R[n, 2] = pick(rng, 0.0, -3.0, 1e5)
        elif k == 3: c.oct_args[3] = row(pick(rng, -1e5, 1e5, 0))
        elif k == 4: c.oct_args[2] = row(c.oct_args[2][0, 0], pick(rng, 1, 2, 3))
        elif k == 5: c.oct_args[1] = c.oct_args[1] * pick(rng, 0.0, 1e-9, 1e4)
        elif k == 6: R[n] = R[n] * 1e4
    return c

def large(rng, fn):
    """many elements, samples or points, one such count at a time; little work otherwise"""
    big = lambda hi: int(np.exp(rng.uniform(np.log(hi / 12), np.log(hi))))
    if fn.startswith("das:"):
        _, m, p = fn.split(":")
        k = int(rng.integers(4 if m != "saft" else 3))
        n = big(4500)
        P = dasm.gen_das(rng, m, p, no=big(4500) if k == 0 else 1, err="ignore", nt_el=n if k == 1 else 2, nr_el=n if k == 3 else 2)
        if k == 2:
            P["alen"] = big(140000); P["Y"] = dasm.data(P, rng)
        o = dasm.oct_das(P); y = dasm.py_das(P)
        return calls.Call(fn, o["args"], (y["mod"], y["fn"], y["args"]), rows=(3,), dl=5, n=1, nout=2, info={q: v for q, v in P.items() if q != "Y"})
    if fn in calls.PYSIR:
        arr = "arr" in fn
        k = int(rng.integers(3 if arr else 2))
        P = gen.gen_sir(rng, fn, no=1, fit=False, alpha=0.0, nt=8, err="ignore", max_cells=60)
        dx, dy, dt, nt = P["s"]
        if k == 0:
            nt = big(140000)
        elif k == 1:
            n = big(2500)
            P["Ro"] = np.repeat(P["Ro"][:1], n, 0) + rng.uniform(-.1, .1, (n, 3))
            if rng.random() < .5: P["delay"] = np.full((n, 1), P["delay"].ravel()[0])
        elif fn == "dream_arr_annu":
            n = 2 * big(800) - 1
            P["G"] = np.linspace(.1, 5, n); dx = dy = 5.0
            P["foc"] = ("ud", rng.uniform(0, 1, (n // 2 + 1, 1))) if rng.random() < .5 else ("xy", row(20))
            P["apod"] = (P["apod"][0], rng.uniform(0, 1, (n // 2 + 1, 1)), P["apod"][2])
        else:
            n = big(5000)
            P["G"] = np.column_stack([rng.uniform(-20, 20, (n, 2)), np.zeros(n)])
            dx = dy = 5.0
            P["foc"] = ("ud", rng.uniform(0, 1, (n, 1))) if rng.random() < .5 else (str(rng.choice(["x", "y", "xy", "x+y"])), row(20))
            P["apod"] = (P["apod"][0], rng.uniform(0, 1, (n, 1)), P["apod"][2])
        P["s"] = (dx, dy, dt, nt)
        a = gen.sir_args(P) + [P["err"]]
        return calls.Call(fn, a, (fn, fn, a), n=len(P["Ro"]), nout=2, info=P)
    c = calls.make(rng, fn, 1) if fn not in calls.INPLACE else calls.make(rng, fn)
    A = c.oct_args
    if fn in calls.ANALYTIC or fn == "dream_att":
        k = int(rng.integers(2 if fn != "scirc_sir" else 3))
        q = 1 if fn == "dream_att" else 2
        if k == 0: A[q] = row(A[q][0, 0], big(140000) if fn != "dream_att" else big(5000))
        elif k == 1:
            n = big(2500)
            A[0] = F(np.repeat(A[0], n, 0) + rng.uniform(0, .1, (n, 3)))
            A[q] = row(A[q][0, 0], 8)
        else: A[q], A[5] = row(A[q][0, 0], 8), row(big(140000))
    elif fn == "dream_apodwin":
        n = big(140000)
        A[1] = rng.standard_normal((n, 1)) if A[0] == "ud" else row(n)
    elif fn in calls.CONV:
        k = int(rng.integers(3))
        M, n, K = (big(70000), 2, 3) if k == 0 else (3, big(5000), 4) if k == 1 else (5, 2, big(70000))
        if fn == "conv_p" and k == 1 and rng.random() < .3: M, K = 600, 700; n = 2
        if fn == "sum_fftconv":
            L = 2
            if rng.random() < .3: L, M, n, K = big(3000), 3, 2, 4
            A[:] = [calls.data(rng, M, n, L), calls.data(rng, K, L)]
        else:
            A[:2] = [calls.data(rng, M, n), calls.data(rng, K, 1 if rng.random() < .5 else n)]
        if fn == "fftconv_ola": A[2] = row(min(M, int(rng.choice([64, 500, 5000]))))
        if c.py: c.py = c.py[:2] + (A[:2],)
    else:
        M = big(70000) if rng.random() < .5 else 2
        N = 2 if M > 2 else big(20000)
        A[:] = [calls.data(rng, M, N), row(1, M), row(1, N), calls.data(rng, M, N)]
    return c

def make(rng, fn):
    if fn in calls.PYSIR: return hostile_sir(rng, fn)
    if fn.startswith("das:"): return hostile_das(rng, fn)
    if fn in calls.ANALYTIC: return hostile_analytic(rng, fn)
    c = calls.make(rng, fn)
    if fn == "dream_att" and rng.random() < .5:
        c.oct_args[0][0] = pick(rng, [0, 0, 0], [1e5, 0, 0])
        if rng.random() < .5: c.oct_args[2] = row(pick(rng, -1e5, 1e5, 0))
    return c

def inplace_variant(rng, c):
    """convolution into a supplied matrix"""
    a = list(c.oct_args)
    rows = a[0].shape[0] + (a[1].size if min(a[1].shape) == 1 else a[1].shape[0]) - 1
    if c.fn == "sum_fftconv":
        rows = a[0].shape[0] + a[1].shape[0] - 1
        a.append(calls.data(rng, rows, a[0].shape[1]))
    else:
        a.append(calls.data(rng, rows, a[0].shape[1]))
        if rng.random() < .8:
            a.append(str(rng.choice(["=", "+=", "-="])))
    if a[-1 if isinstance(a[-1], np.ndarray) else -2].size < 2:
        return None
    return calls.Call(c.fn, a, None, nout=0)

SAN = re.compile(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|==\d+==\s*(?:Invalid|Conditional|Use of|Source|Mismatched|Process)[^\n]*)")
def frames(d):
    fr = re.findall(r"(\S+) \(?(?:/\S*/)?([\w.]+\.(?:cc|h|hpp):\d+|\w+\.(?:oct|so)[+)])", d)
    L = [f for f in re.findall(r"#\d+ 0x\w+ in (.{0,90}?) (?:\S*/build/src/)(\S+)", d)]
    return "; ".join("%s %s" % f for f in L[:4])

def workload(ck, m, tag):
    J = {"py": [], "oct": []}
    for fn in calls.EVERY:
        rng = ck.subrng(tag, fn)
        k = m * (3 if fn in calls.PYSIR or fn.startswith("das:") else 2)
        if fn in ("dream_apodwin",) + tuple(calls.INPLACE): k = max(2, m // 2)
        for i in range(k):
            c = edge_das(rng, fn) if fn.startswith("das:") and i % 2 else make(rng, fn)
            if fn in calls.CONV and i % 2:
                c = inplace_variant(rng, c) or c
            ls = c.langs()
            lang = ls[int(rng.integers(len(ls)))]
            J[lang].append((c, c.case(lang, env=gen.nthreads_env(rng), post=c.nout == 0)))
        rng = ck.subrng(tag, fn, "large")
        for i in range(0 if tag == "vg" else max(4, m // 4) if "arr" in fn or fn.startswith("das:") else max(2, m // 8)):
            c = large(rng, fn)
            ls = c.langs()
            lang = ls[int(rng.integers(len(ls)))]
            J[lang].append((c, c.case(lang, env=gen.nthreads_env(rng), post=c.nout == 0)))
            ck.count("calls with a count in the hundreds to 140000")
    for l in J:
        J[l] = [J[l][i] for i in ck.subrng(tag, l).permutation(len(J[l]))]
    return J

def san_judge(ck, J, res, lang, what):
    for (c, case), r in zip(J[lang], res):
        if r.kind == "skipped":
            ck.skip("skipped"); continue
        ck.saw((what, lang, repr(c.brief()), repr(case.get("env"))), nontrivial=r.kind == "ok")
        ck.count("%s: %s %s" % (what, lang, "returned" if r.kind == "ok" else "error raised" if r.kind == "exc" else r.kind))
        if r.kind in ("crash", "hang"):
            m = SAN.search(r.detail)
            kind = "?" if not m else m.group(1)
            if what == "memcheck" and not re.search(r"build/(rel|src)/", r.detail):
                ck.skip("memcheck report outside the code under test"); continue
            short = re.sub(r"\W+", "-", re.sub(r"0x[0-9a-f]+|\d+(\.\d+)?(e[+-]?\d+)?", "", kind))[:60]
            ck.violate("%s:%s:%s:%s" % (c.fn.split(":")[0], lang, what, short), "%s [%s]\n%s" % (kind, frames(r.detail), r.detail[:1200] if not m else ""), lang, case, "asan" if what == "sanitizers" else "rel", c.brief())

def run():
    ck = harness.Check("C09", RULE, ["values are finite and of physical magnitude (times up to 1e6 us, lengths up to 1e6 mm)",
                                     "dependence on memory content is judged for two fill patterns of fresh heap memory and, for a sample of calls, by valgrind memcheck"])
    m = 60 if ck.thorough else 8
    Ra = work.Runner("asan", calls.targets(calls.EVERY))
    J = workload(ck, m, "asan")
    rp, ro = harness.both(Ra, [c for _, c in J["py"]], [c for _, c in J["oct"]], hang_s=120, max_crash=8)
    san_judge(ck, J, rp, "py", "sanitizers"); san_judge(ck, J, ro, "oct", "sanitizers")
    # heap fill
    J = workload(ck, m, "fill")
    outs = []
    Rr = work.Runner("rel", calls.targets(calls.EVERY))
    for perturb, rev in (("85", False), ("129", True)):
        R = work.Runner("rel", calls.targets(calls.EVERY), env={"MALLOC_PERTURB_": perturb, "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"})
        L = {l: [c for _, c in J[l]][::-1 if rev else 1] for l in J}
        a, b = harness.both(R, L["py"], L["oct"], hang_s=120)
        outs.append((a[::-1], b[::-1]) if rev else (a, b))
    for li, lang in enumerate(("py", "oct")):
        for (c, case), x, y in zip(J[lang], outs[0][li], outs[1][li]):
            if "skipped" in (x.kind, y.kind):
                ck.skip("skipped"); continue
            ck.saw(("fill", lang, repr(c.brief())), nontrivial=x.kind == "ok")
            key = "%s:%s:fill:" % (c.fn.split(":")[0], lang)
            if x.kind != y.kind or x.kind in ("crash", "hang"):
                ck.violate(key + "kind", "fill 0x55: %s; fill 0x81: %s" % (harness.show(x), harness.show(y)), lang, case, "rel", c.brief()); continue
            if x.kind != "ok":
                ck.count("fill: error raised"); continue
            xs = [x.post[0 if c.fn in calls.INPLACE else 3 if c.fn == "fftconv_ola" else 2]] if c.nout == 0 else x.outs
            ys = [y.post[0 if c.fn in calls.INPLACE else 3 if c.fn == "fftconv_ola" else 2]] if c.nout == 0 else y.outs
            ck.count("fill: results compared")
            for p, q in zip(xs, ys):
                if not calls.agree(c, p, q):
                    n = np.flatnonzero((np.asarray(p) != np.asarray(q)).ravel(order="F")) if np.shape(p) == np.shape(q) else []
                    ck.violate(key + "differs", "result depends on what the memory held: elements %s differ" % list(n[:6]), lang, case, "rel", c.brief()); break
    # valgrind
    J = workload(ck, 12 if ck.thorough else 1, "vg")
    vg = ["valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=93", "--error-limit=no", "--undef-value-errors=yes", "--suppressions=" + harness.ROOT + "/native/vg.supp"]
    R = work.Runner("rel", calls.targets(calls.EVERY), env={"PYTHONMALLOC": "malloc"}, wrap=vg)
    if not ck.thorough:
        J = {l: J[l][:40] for l in J}
    rp, ro = harness.both(R, [c for _, c in J["py"]], [c for _, c in J["oct"]], par=4, hang_s=200, max_crash=5)
    san_judge(ck, J, rp, "py", "memcheck"); san_judge(ck, J, ro, "oct", "memcheck")
    for l in J:
        for c, _ in J[l][:2]:
            ck.sample(c.brief())
    return ck.finish()
