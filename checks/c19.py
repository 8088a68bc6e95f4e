"""Metamorphic relations between calls: shift, scale, reflection, translation, exchange, additivity, linearity, limits."""
import numpy as np
from vf import gen, calls, work, harness, dasm
from vf.gen import row, F, U

RULE = ("one evaluation = one relation between two or more calls, judged sample by sample (exact relations to rounding of the sums; convergence relations on the running integral of the response); geometries lie on a "
        "binary grid, so that distances are the same numbers on both sides; non-trivial when the compared responses have non-zero samples; distinct by relation and arguments")

def q(rng, lo, hi, step):
    """a multiple of step in [lo, hi]"""
    return float(step * rng.integers(int(np.ceil(lo / step)), int(np.floor(hi / step)) + 1))

S = 1 / 16
def points(rng, no, size):
    Ro = np.column_stack([rng.integers(int(-1.5 * size / S), int(1.5 * size / S) + 1, no) * S, rng.integers(int(-1.5 * size / S), int(1.5 * size / S) + 1, no) * S, rng.integers(int(3 / S), int(40 / S), no) * S])
    for i in range(no):
        t = rng.random()
        if t < .1: Ro[i, :2] = 0
        elif t < .2: Ro[i, 0] = 0
        elif t < .3: Ro[i, 1] = 0
    return Ro

def sym_elements(rng):
    """elements on a symmetric dyadic grid"""
    p = float(rng.choice([.5, 1, 2])); k = int(rng.integers(0, 3)); n = int(rng.integers(1, 6))
    x = (np.arange(n) - (n - 1) / 2) * p
    if k == 0: return np.column_stack([x, 0 * x, 0 * x])
    if k == 1: return np.column_stack([0 * x, x, 0 * x])
    m = int(rng.integers(1, 4)); y = (np.arange(m) - (m - 1) / 2) * p
    X, Y = np.meshgrid(x, y)
    return np.column_stack([X.ravel(), Y.ravel(), 0 * X.ravel()])

def make(rng, fn, alpha=0.0):
    """a problem on the binary grid, whole numbers of cells"""
    P = dict(fn=fn, err="ignore")
    arr = fn in gen.ARR3
    dx = float(rng.choice([.125, .25, .5])); dy = float(rng.choice([.125, .25, .5]))
    k = lambda d, n=8: d * int(rng.integers(1, n + 1))
    kind = {"dream_arr_rect": "rect", "dream_arr_circ": "circ", "dream_arr_cylind": "cylind", "dreamrect_f": "rect", "dreamcirc_f": "circ", "dream_arr_annu": "annu"}.get(fn, fn[5:])
    if kind == "line": P["geom"] = [k(dx, 20)]
    elif kind == "rect": P["geom"] = [k(dx, 20 if not arr else 5), k(dy, 20 if not arr else 5)]
    elif kind == "circ": P["geom"] = [k(dy, 12 if not arr else 4)]
    elif kind == "sphere": R = k(dy, 12); P["geom"] = [R, float(rng.choice([-1, 1])) * R * float(rng.choice([1.5, 2, 4]))]
    elif kind == "cylind": b = k(dy, 12 if not arr else 4); P["geom"] = [k(dx, 12 if not arr else 4), b, float(rng.choice([-1, 1])) * max(b, dy) * float(rng.choice([1, 1.5, 4]))]
    else:
        n = int(rng.choice([1, 3, 5, 7])); P["G"] = np.cumsum(rng.integers(1, 5, n)) * .5
        if n > 1 and rng.random() < .3: P["G"][0] = 0
    if arr:
        P["G"] = sym_elements(rng); ne = len(P["G"])
        P["foc"] = gen.gen_foc(rng, str(rng.choice(gen.FOCS)), ne, .1)
        P["steer"] = (str(rng.choice(gen.STEERS)), row(U(rng, -40, 40), U(rng, -40, 40)))
        P["apod"] = gen.gen_apod(rng, str(rng.choice(gen.APODS)) if ne > 1 else "off", ne)
    elif kind == "annu":
        ne = (len(P["G"]) + 1) // 2
        P["foc"] = gen.gen_foc(rng, str(rng.choice(["off", "x", "y", "xy", "x+y", "ud"])), ne, .1)
        P["apod"] = gen.gen_apod(rng, str(rng.choice(gen.APODS)) if ne > 1 else "off", ne)
    elif fn in gen.FOC2:
        P["foc"] = (str(rng.choice(["off", "x", "y", "xy", "x+y"])), row(U(rng, 3, 80)))
    P["m"] = (U(rng, .2, 4), U(rng, 500, 6500), alpha)
    P["Ro"] = points(rng, int(rng.choice([1, 2, 3, 5, 9])), 5.0)
    P["s"] = (dx, dy, float(rng.choice([1 / 64, 1 / 32, 1 / 16])), 10)
    P["delay"] = row(0.0)
    window(rng, P)
    return P

def window(rng, P, per=None):
    """a window over part or all of the responses, starting at whole binary times"""
    P["delay"] = row(0.0)
    lo, hi = gen.arrival_range(P)
    n = len(P["Ro"]); dt = P["s"][2]
    per = n > 1 and rng.random() < .4 if per is None else per and n > 1
    span = (hi - lo).max() if per else hi.max() - lo.min()
    while span / dt > (800 if P["m"][2] == 0 else 100): dt *= 2
    nt = int(min(span / dt * rng.choice([1.1, 1.1, .7]), 800)) + int(rng.integers(2, 12))
    P["s"] = (P["s"][0], P["s"][1], dt, nt)
    d = np.floor((lo if per else np.array([lo.min()])) * 64) / 64 - dt * int(rng.integers(0, 4))
    P["delay"] = F(d.reshape(-1, 1))
    return P

def V(P, **kw):
    Q = dict(P); Q.update(kw)
    return Q
def sP(P, **kw):
    s = dict(zip(("dx", "dy", "dt", "nt"), P["s"])); s.update(kw); return (s["dx"], s["dy"], s["dt"], s["nt"])
def mP(P, **kw):
    s = dict(zip(("v", "cp", "alpha"), P["m"])); s.update(kw); return (s["v"], s["cp"], s["alpha"])

def cmp(lhs, rhs, rtol=1e-11, scale=None):
    """None or message"""
    lhs, rhs = np.asarray(lhs, float), np.asarray(rhs, float)
    if lhs.shape != rhs.shape: return "shapes %s and %s" % (lhs.shape, rhs.shape)
    sc = max(float(np.abs(rhs).max()) if rhs.size else 0, float(np.abs(lhs).max()) if lhs.size else 0, scale or 0)
    d = np.abs(lhs - rhs)
    if not np.all(d <= rtol * sc):
        k = np.unravel_index(int(np.nanargmax(np.where(np.isnan(d), np.inf, d))), d.shape)
        return "%d samples differ, at %s %.15g and %.15g" % (int(np.sum(~(d <= rtol * sc))), tuple(int(x) for x in k), lhs[k], rhs[k])

def shifted(h, k):
    """rows k.. of a response that starts k samples earlier"""
    return h[k:] if k >= 0 else h[:k]

# each relation: (name, list of cases, judge(outs) -> (message or None, nontrivial))
def sir_relations(rng, fn, L):
    al = 0.0 if rng.random() < .85 else U(rng, .1, 4)
    P = make(rng, fn, al)
    c = lambda Q: gen.oct_sir(Q)
    dt, nt = P["s"][2], P["s"][3]
    def rel(name, Qs, f): L.append((fn, name, Qs, f, P))
    # a later start shows the same response earlier
    if al == 0:
        k = int(rng.integers(1, max(2, nt)))
        W = V(P, foc=("off", row(1.0))) if fn == "dream_arr_annu" else P      # rings are moved after the window was applied
        rel("shift", [W, V(W, delay=P["delay"] - k * dt)], lambda a, k=k: cmp(a[0][:nt - k], a[1][k:], scale=np.abs(a[0]).max()))
        # a longer window only adds samples
    k2 = float(rng.choice([2, .5, -2, 3.7, 1e3, 1e-6, -1e7, 1e-12, 1e-17, 1e14]))
    rel("velocity", [P, V(P, m=mP(P, v=P["m"][0] * k2))], lambda a, k=k2: cmp(a[0] * k, a[1]))
    if al == 0:
        rel("window", [W, V(W, s=sP(P, nt=nt + 17))], lambda a: cmp(a[0], a[1][:nt], scale=np.abs(a[0]).max()))
    k = float(rng.choice([2, .5, 4]))
    Q = V(P, Ro=P["Ro"] * k, s=(P["s"][0] * k, P["s"][1] * k, dt * k, nt), delay=P["delay"] * k)
    if "geom" in P: Q["geom"] = [g * k for g in P["geom"]]
    if "G" in P: Q["G"] = P["G"] * k
    if "foc" in P: Q["foc"] = (P["foc"][0], P["foc"][1] * k)
    if "steer" in P: pass
    # (the attenuation of a frequency scaled by 1/k over a path scaled by k is the same)
    rel("scale", [P, Q], lambda a: cmp(a[0], a[1], rtol=1e-9 if al else 1e-11))
    rel("speed", [P, V(P, m=mP(P, cp=P["m"][1] * k), s=sP(P, dt=dt / k), delay=P["delay"] / k, **({"foc": (P["foc"][0], P["foc"][1] / k)} if P.get("foc", ("",))[0] == "ud" else {}))] if al == 0 else [P, P],
        lambda a, k=k if al == 0 else 1.0: cmp(a[0] * k, a[1]))
    # reflections
    refl = {"dreamline": "xyz", "dreamrect": "xyz", "dreamrect_f": "xyz", "dreamcirc": "yz", "dreamcirc_f": "yz", "dreamsphere": "y", "dreamcylind": "x", "dream_arr_rect": "xyz", "dream_arr_circ": "yz", "dream_arr_cylind": "x", "dream_arr_annu": "yz"}[fn]
    for ax in refl:
        i = "xyz".index(ax)
        R2 = P["Ro"].copy(); R2[:, i] *= -1
        X = V(P)
        if "steer" in P and fn in gen.ARR3:
            # per-element settings and steering break the symmetry of the array unless they are mirrored, too
            if ax != "z":
                X["steer"] = ("off", P["steer"][1])
                if X["foc"][0] == "ud": X["foc"] = ("off", row(10.0))
                if X["apod"][0] == "ud": X["apod"] = ("off",) + X["apod"][1:]
                rel("reflect " + ax, [X, V(X, Ro=R2)], lambda a: cmp(a[0], a[1]))
                continue
        rel("reflect " + ax, [P, V(P, Ro=R2)], lambda a: cmp(a[0], a[1]))
    # exchange of x and y
    if fn in ("dreamrect", "dreamrect_f", "dream_arr_rect"):
        sw = {"x": "y", "y": "x"}
        Q = V(P, Ro=P["Ro"][:, [1, 0, 2]], geom=P["geom"][::-1], s=(P["s"][1], P["s"][0], dt, nt))
        if "G" in P: Q["G"] = P["G"][:, [1, 0, 2]]
        if "foc" in P: Q["foc"] = (sw.get(P["foc"][0], P["foc"][0]), P["foc"][1])
        if "steer" in P: Q["steer"] = (sw.get(P["steer"][0], P["steer"][0]), P["steer"][1][:, ::-1])
        rel("exchange x y", [P, Q], lambda a: cmp(a[0], a[1]))
    # neutral settings
    if fn in gen.ARR3:
        off = V(P, foc=("off", row(1.0)), steer=("off", row(0.0, 0.0)), apod=("off", np.ones((1, len(P["G"]))), 1.0))
        n = len(P["G"]); one = np.ones((1, n))
        rel("zero steering", [off, V(off, steer=("xy", row(0.0, 0.0)))], lambda a: cmp(a[0], a[1]))
        rel("unit weights", [off, V(off, apod=("ud", one, 1.0))], lambda a: cmp(a[0], a[1]))
        rel("zero delays", [off, V(off, foc=("ud", 0 * one))], lambda a: cmp(a[0], a[1]))
        w = P["apod"][1] if P["apod"][0] == "ud" else rng.uniform(0, 2, (1, n))
        rel("weights double", [V(P, apod=("ud", w, 1.0)), V(P, apod=("ud", 2 * w, 1.0))], lambda a: cmp(2 * a[0], a[1]))
        # superposition: each element alone
        for Q in (V(P, apod=("ud", w, 1.0), foc=("ud", np.floor(rng.uniform(0, 1, (1, n)) * 64) / 64), steer=("off", row(0.0, 0.0))),):
            d = Q["foc"][1].ravel()
            rel("superposition", [Q] + [V(Q, G=P["G"][[e]], foc=("ud", row(d[e])), apod=("ud", row(w.ravel()[e]), 1.0)) for e in range(n)], lambda a: cmp(a[0], sum(a[1:])))
        # order of the elements
        p = rng.permutation(n)
        Q = V(P, G=P["G"][p])
        if P["foc"][0] == "ud": Q["foc"] = ("ud", P["foc"][1].ravel()[p].reshape(1, -1))
        if P["apod"][0] == "ud": Q["apod"] = ("ud", P["apod"][1].ravel()[p].reshape(1, -1), P["apod"][2])
        rel("element order", [P, Q], lambda a: cmp(a[0], a[1]))
        # the array moved together with the points
        t = np.array([[q(rng, -3, 3, S), q(rng, -3, 3, S), q(rng, -2, 2, S)]])
        rel("translation", [off, V(off, G=P["G"] + t, Ro=P["Ro"] + t)], lambda a: cmp(a[0], a[1]))
        one_fn = {"dream_arr_rect": "dreamrect", "dream_arr_circ": "dreamcirc", "dream_arr_cylind": "dreamcylind"}[fn]
        g = P["G"][0]
        rel("one element", [V(off, G=P["G"][:1], apod=("off", row(1.0), 1.0)), dict(fn=one_fn, err="ignore", geom=P["geom"], Ro=P["Ro"] - g, s=P["s"], delay=P["delay"], m=P["m"])], lambda a: cmp(a[0], a[1]))
        # a later delay of every element
        k = int(rng.integers(1, 6))
        if al == 0 and nt > k:
            rel("common delay", [V(P, foc=("ud", np.zeros((1, n)))), V(P, foc=("ud", np.full((1, n), k * dt)))], lambda a, k=k: cmp(a[0][:nt - k], a[1][k:], scale=np.abs(a[0]).max()))
    if fn == "dream_arr_annu":
        r = np.array(sorted(set((rng.integers(1, 24, int(rng.integers(1, 4))) * .25).tolist())))
        G = np.concatenate([[r[0]], np.repeat(r[:-1], 1)[:0]]); 
        G = [r[0]]
        for e in range(1, len(r)): G += [r[e - 1], r[e]]      # rings that touch: together the outer disc
        ne = len(r)
        Q = V(P, G=np.array(G), foc=("off", row(1.0)), apod=("off", np.ones((1, ne)), 1.0))
        rel("touching rings", [Q, dict(fn="dreamcirc", err="ignore", geom=[r[-1]], Ro=P["Ro"], s=P["s"], delay=P["delay"], m=P["m"])], lambda a: cmp(a[0], a[1]))
    # abutting parts
    parts(rng, fn, P, rel)
    # focusing that vanishes
    if fn in gen.FOC2:
        base = dict(fn="dreamrect" if fn == "dreamrect_f" else "dreamcirc", err="ignore", geom=P["geom"], Ro=P["Ro"], s=P["s"], delay=P["delay"], m=P["m"])
        rel("focusing off", [V(P, foc=("off", row(5.0))), base], lambda a: cmp(a[0], a[1]))

def parts(rng, fn, P, rel):
    if P["m"][2] > 0 or "geom" not in P: return
    dx, dy = P["s"][:2]
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    if fn in ("dreamline", "dreamrect", "dreamcylind"):
        a = P["geom"][0]
        if fn != "dreamrect": m = 1
        # the whole: n x m parts of the size of P's aperture, along x (and y)
        whole = [a * n] + ([P["geom"][1] * m] if fn == "dreamrect" else P["geom"][1:])
        if fn == "dreamrect" and n * m > 6: return
        L = [V(P, geom=whole)]
        for i in range(n):
            for j in range(m):
                o = np.array([[(i - (n - 1) / 2) * a, (j - (m - 1) / 2) * P["geom"][1] if m > 1 else 0.0, 0.0]])
                L.append(V(P, Ro=P["Ro"] - o))
        rel("abutting parts", L, lambda x: cmp(x[0], sum(x[1:])))
    if fn in ("dream_arr_rect", "dream_arr_cylind"):
        a, b = P["geom"][:2]
        if fn == "dream_arr_cylind": m = 1
        G = np.array([[(i - (n - 1) / 2) * a, (j - (m - 1) / 2) * b, 0.0] for j in range(m) for i in range(n)])
        off = V(P, G=G, foc=("off", row(1.0)), steer=("off", row(0.0, 0.0)), apod=("off", np.ones((1, len(G))), 1.0))
        whole = dict(fn="dreamrect" if fn == "dream_arr_rect" else "dreamcylind", err="ignore", geom=[a * n, b * m] + P["geom"][2:], Ro=P["Ro"], s=P["s"], delay=P["delay"], m=P["m"])
        rel("abutting elements", [off, whole], lambda x: cmp(x[0], x[1]))

def convergence(rng, L, deep):
    """finer surface grids: the running integral tends to the analytic one"""
    kind = str(rng.choice(["rect", "circ"]))
    g = [U(rng, 2, 12), U(rng, 2, 12)] if kind == "rect" else [U(rng, 1, 7)]
    size = max(g) if kind == "rect" else 2 * g[0]
    no = int(rng.choice([1, 2, 3]))
    Ro = np.column_stack([rng.uniform(-.9, .9, no) * size, rng.uniform(-.9, .9, no) * size, rng.uniform(.5, 3, no) * size])
    v, cp = U(rng, .5, 2), U(rng, 800, 5000)
    P = dict(fn="dream" + kind, err="ignore", geom=g, m=(v, cp, 0.0), Ro=Ro, s=(size / 10, size / 10, .01, 10), delay=row(0.0))
    lo, hi = gen.arrival_range(P)
    nt = 60
    dt = float((hi.max() - lo.min()) / nt * 1.3)
    d0 = lo.min() - 5 * dt
    P["delay"] = row(d0)
    N = [20, 100] if not deep else [20, 80, 320]
    Q = [V(P, s=(size / n, size / n, dt, nt + 10)) for n in N]
    over = 20      # samples of the analytic response per sample
    fn = kind + "_sir"
    a = [F(Ro), row(*g), row(dt / over, (nt + 10) * over), row(d0 - dt / 2 + dt / over / 2), row(v, cp)]
    cases = [gen.oct_sir(x) for x in Q] + [dict(fn=fn, args=a)]
    if kind == "circ": cases.append(dict(fn="scirc_sir", args=[F(Ro), row(*g), row(dt, nt + 10), row(d0), row(v, cp), row(400.0)]))
    def judge(outs):
        A = outs[len(N)]
        I = np.cumsum(A.reshape(nt + 10, over, -1).mean(1), 0)
        T = np.abs(I).max(0)
        ref = 2 * np.abs(A).max(0) / over / T + 2e-3      # how well the reference's own samples resolve a jump
        e = [np.abs(np.cumsum(outs[k], 0) - I).max(0) / T for k in range(len(N))]
        for k, n in enumerate(N):
            if not np.all(e[k] <= 3.0 / (n * min(g) / size if kind == "rect" else n) + ref): return "%d cells across: running integral off by %.3g of the total" % (n, e[k].max())
        if kind == "circ":
            e2 = np.abs(np.cumsum(outs[-1], 0) - I).max(0) / T
            if not np.all(e2 <= ref): e2 = e2.max(); return "the sampled response's integral is off by %.3g of the total" % e2
    L.append(("dream" + kind, "convergence", cases, judge, dict(P, cells=N)))

def limits(rng, L):
    """curvature and focal distance to infinity, rotation of a disc: up to the discretization"""
    fn = str(rng.choice(["dreamsphere", "dreamcylind", "dreamrect_f", "dreamcirc_f", "rotate"]))
    if fn == "rotate":
        R = U(rng, 1, 6); P = dict(fn=str(rng.choice(["dreamcirc", "dreamsphere", "dream_arr_annu"])), err="ignore", m=(1.0, U(rng, 800, 5000), 0.0))
        th = U(rng, 0, 2 * np.pi)
        r, z = U(rng, 0, 2 * R), U(rng, R, 6 * R)
        P["Ro"] = np.array([[r, 0, z], [r * np.cos(th), r * np.sin(th), z], [0, r, z], [-r, 0, z]])
        if P["fn"] == "dream_arr_annu":
            P["G"] = np.array([R / 3, R / 2, R]); P["foc"] = ("xy", row(U(rng, 10, 50))); P["apod"] = ("off", np.ones((1, 2)), 1.0)
        else: P["geom"] = [R] + ([R * 2.0] if P["fn"] == "dreamsphere" else [])
        P["s"] = (R / 60, R / 60, .01, 10); P["delay"] = row(0.0)
        lo, hi = gen.arrival_range(P)
        dt = max(float((hi.max() - lo.min()) / 50), .005)
        P["s"] = (R / 60, R / 60, dt, 70); P["delay"] = row(float(lo.min() - 5 * dt))
        def judge(o):
            I = np.cumsum(o[0], 0); e = np.abs(I - I[:, :1]).max() / np.abs(I).max()
            if not e < .06: return "running integrals of rotated points differ by %.3g" % e
        L.append((P["fn"], "rotation", [gen.oct_sir(P)], judge, P)); return
    P = make(rng, fn)
    if fn == "dreamsphere": A, B = V(P, geom=[P["geom"][0], P["geom"][1] * 1e9]), dict(P, fn="dreamcirc", geom=P["geom"][:1])
    elif fn == "dreamcylind": A, B = V(P, geom=P["geom"][:2] + [P["geom"][2] * 1e6]), dict(P, fn="dreamrect", geom=P["geom"][:2])
    else: A, B = V(P, foc=("xy", row(1e9))), dict(P, fn=fn[:-2])
    window(rng, B, per=False)
    s = sP(B, nt=B["s"][3] + 4)
    A, B = V(A, s=s, delay=B["delay"] - 2 * s[2]), V(B, s=s, delay=B["delay"] - 2 * s[2])
    def judge(o):
        x, y = np.cumsum(o[0], 0), np.cumsum(o[1], 0)
        sc = max(np.abs(o[1]).max(), np.abs(y).max())
        if sc == 0: return None
        # at most a few contributions fall into the neighbouring sample; the ends' optional row of cells
        e = np.abs(x - y).max() / sc
        if fn == "dreamcylind": return None if e < 1.0 / max(1, round(P["geom"][1] / P["s"][1])) + 1e-3 else "flat cylinder and rectangle differ by %.3g" % e
        if e > .02: return "%s in the limit: running integral differs by %.3g" % (fn, e)
    L.append((fn, "limit", [gen.oct_sir(A), gen.oct_sir(B)], judge, P))

def das_relations(rng, fn, L):
    _, m, pr = fn.split(":")
    P = dasm.gen_das(rng, m, pr, err="ignore")
    t = np.float32 if pr == "f" else np.float64
    st = S if pr == "d" else 1 / 8
    rn = lambda a: np.round(np.asarray(a, float) / st) * st
    P["Gt"], P["Gr"], P["Ro"] = rn(P["Gt"]), rn(P["Gr"]), rn(P["Ro"])
    P["Ro"][:, 2] = np.abs(P["Ro"][:, 2]) + 1
    P["Gt"][:, 2] = 0
    if len(P["Gr"]): P["Gr"][:, 2] = 0
    nt, nr, al = len(P["Gt"]), max(1, len(P["Gr"])), P["alen"]
    amp = t(2.0) ** int(rng.choice([0, 0, 7, 12, 16, 24, 60, -12, -60]))      # (powers of two: all sums stay exact)
    P["Y"] = F(rng.integers(-20, 21, (al, dasm.ncols(P))).astype(t) * amp)
    def rel(name, Qs, f): L.append((fn, name, [dasm.oct_das(Q, err="ignore") for Q in Qs], f, {k: v for k, v in P.items() if k != "Y"}))
    f = lambda a, b: cmp(a.ravel(), b.ravel(), rtol=0)
    def g(a, b):      # up to a sample index that rounding of the travel time decides
        sl = dasm.expected(P).slack
        return f(np.where(np.abs(a.ravel() - b.ravel()) <= sl, b.ravel(), a.ravel()), b)
    Y2 = F(rng.integers(-20, 21, P["Y"].shape).astype(t) * amp)
    k = t(2.0) ** int(rng.choice([-50, -20, -9, 9, 13, 20, 50]))
    rel("amplitude", [P, V(P, Y=F(k * P["Y"]))], lambda a, k=k: f(k * a[0], a[1]))
    rel("linear", [P, V(P, Y=Y2), V(P, Y=F(3 * P["Y"] - 2 * Y2))], lambda a: f(3 * a[0] - 2 * a[1], a[2]))
    k = float(rng.choice([2, .5, 4]))
    rel("scale", [P, V(P, Gt=P["Gt"] * k, Gr=P["Gr"] * k, Ro=P["Ro"] * k, dt=P["dt"] * k, delay=P["delay"] * k)], lambda a: f(a[0], a[1]))
    rel("speed", [P, V(P, cp=P["cp"] * k, dt=P["dt"] / k, delay=P["delay"] / k)], lambda a: f(a[0], a[1]))
    o = rn([[U(rng, -3, 3), U(rng, -3, 3), U(rng, -1, 1)]])
    rel("translation", [P, V(P, Gt=P["Gt"] + o, Gr=P["Gr"] + o if len(P["Gr"]) else P["Gr"], Ro=P["Ro"] + o)], lambda a: f(a[0], a[1]))
    R2 = P["Ro"] * [[1, 1, -1]]
    rel("reflect z", [P, V(P, Ro=R2)], lambda a: f(a[0], a[1]))
    sx = np.array([[-1, 1, 1]])
    if not m.startswith("rca"):
        rel("reflect x", [P, V(P, Ro=P["Ro"] * sx, Gt=P["Gt"] * sx, Gr=P["Gr"] * sx if len(P["Gr"]) else P["Gr"])], lambda a: f(a[0], a[1]))
    sw = lambda A: A[:, [1, 0, 2]] if len(A) else A
    if m.startswith("rca"):
        other = "rca_rowtx" if m == "rca_coltx" else "rca_coltx"
        rel("exchange x y", [P, V(P, method=other, Ro=sw(P["Ro"]), Gt=sw(P["Gr"]), Gr=sw(P["Gt"]))], lambda a: g(a[0], a[1]))
        # transmit and receive exchanged: the columns of the data in the other order
        n1, n2 = (nt, nr) if m == "rca_coltx" else (nr, nt)
        rel("reciprocity", [P, V(P, method=other, Y=F(P["Y"].reshape(al, n1, n2).transpose(0, 2, 1).reshape(al, -1)))], lambda a: g(a[0], a[1]))
    else:
        rel("exchange x y", [P, V(P, Ro=sw(P["Ro"]), Gt=sw(P["Gt"]), Gr=sw(P["Gr"]))], lambda a: g(a[0], a[1]))
    if m == "tfm":
        rel("reciprocity", [P, V(P, Gt=P["Gr"], Gr=P["Gt"], Y=F(P["Y"].reshape(al, nt, nr).transpose(0, 2, 1).reshape(al, -1)))], lambda a: g(a[0], a[1]))
        rel("per transmitter", [P] + [V(P, Gt=P["Gt"][[e]], Y=F(P["Y"][:, e * nr:(e + 1) * nr])) for e in range(nt)], lambda a: f(a[0], sum(a[1:])))
    if m == "saft":
        rel("per element", [P] + [V(P, Gt=P["Gt"][[e]], Y=F(P["Y"][:, [e]])) for e in range(nt)], lambda a: f(a[0], sum(a[1:])))
        p = rng.permutation(nt)
        rel("element order", [P, V(P, Gt=P["Gt"][p], Y=F(P["Y"][:, p]))], lambda a: f(a[0], a[1]))
    z = int(rng.integers(1, 4))
    rel("longer data of zeros", [P, V(P, alen=al + z, Y=F(np.vstack([P["Y"], np.zeros((z, P["Y"].shape[1]), t)])))], lambda a: f(a[0], a[1]))

def analytic_relations(rng, fn, L):
    c = calls.analytic(rng, fn)
    A = c.oct_args
    # away from arrivals that coincide with a sample, where rounding decides
    def rel(name, args, f): L.append((fn, name, [dict(fn=fn, args=a) for a in args], f, dict(args=gen.brief(A))))
    def ch(**kw): return [F(kw.get("a%d" % i, a)) for i, a in enumerate(A)]
    k = float(rng.choice([2, .5, 4]))
    dt, nt = A[2][0, 0], int(A[2][0, 1])
    kv = float(rng.choice([2, .5, -3, 3.7, 1e3, 1e-6, 1e-13, 1e12]))
    rel("velocity", [A, ch(a4=A[4] * [[kv, 1]])], lambda a, k=kv: cmp(a[0] * k, a[1]))
    rel("scale", [A, ch(a0=A[0] * k, a1=A[1] * k, a2=A[2] * [[k, 1]], a3=A[3] * k)], lambda a: near(a[0], a[1]))
    rel("speed", [A, ch(a2=A[2] * [[1 / k, 1]], a3=A[3] / k, a4=A[4] * [[1, k]])], lambda a, k=k: near(a[0] * k, a[1]))
    rel("window", [A, ch(a2=A[2] + [[0, 13]])], lambda a: cmp(a[0], a[1][:nt], scale=np.abs(a[1]).max()))
    for i in (0, 1):
        R2 = A[0].copy(); R2[:, i] *= -1
        rel("reflect " + "xy"[i], [A, ch(a0=R2)], lambda a: cmp(a[0], a[1]))
    s = int(rng.integers(1, 20))
    rel("shift", [A, ch(a3=A[3] - s * dt)], lambda a, s=s: near(a[0][:max(nt - s, 0)], a[1][s:]) if nt > s else None)
    if fn == "rect_sir":
        rel("exchange x y", [A, ch(a0=A[0][:, [1, 0, 2]], a1=A[1][:, ::-1])], lambda a: near(a[0], a[1]))
        g = A[1].ravel(); n = len(A[0]); 
        L4 = []
        for sx in (-1, 1):
            for sy in (-1, 1):
                R2 = A[0] - np.array([[sx * g[0] / 4, sy * g[1] / 4, 0]])
                L4.append(ch(a0=R2, a1=A[1] / 2))
        rel("four quarters", [A] + L4, lambda a: near(a[0], sum(a[1:])))
    else:
        th = U(rng, 0, 2 * np.pi); R2 = A[0].copy()
        R2[:, 0], R2[:, 1] = np.cos(th) * A[0][:, 0] - np.sin(th) * A[0][:, 1], np.sin(th) * A[0][:, 0] + np.cos(th) * A[0][:, 1]
        rel("rotation", [A, ch(a0=R2)], lambda a: near(a[0], a[1]))

def near(a, b):
    """equal but for the steepness of the response next to an arrival"""
    sc = max(np.abs(a).max() if a.size else 0, np.abs(b).max() if b.size else 0)
    d = np.abs(a - b)
    if np.any(~(d <= 1e-5 * sc)) and not np.sum(~(d <= 1e-5 * sc)) <= 0:
        k = np.unravel_index(int(np.nanargmax(d)), d.shape)
        return "%d samples differ, at %s %.12g and %.12g" % (int(np.sum(d > 1e-5 * sc)), k, a[k], b[k])

def conv_relations(rng, fn, L):
    c = calls.conv(rng, fn)
    A = c.oct_args
    x = np.rint(A[0] * 4); h = np.rint(A[1] * 4)
    x2 = np.rint(rng.standard_normal(x.shape) * 8)
    amp = float(rng.choice([1, 1, 2.0 ** 16, 2.0 ** -30, 2.0 ** 60])); x, x2 = x * amp, x2 * amp
    def rel(name, args, f): L.append((fn, name, [dict(fn=fn, args=[F(q) if isinstance(q, np.ndarray) else q for q in a]) for a in args], f, dict(args=gen.brief(A))))
    rest = list(A[2:])
    rel("linear", [[x, h] + rest, [x2, h] + rest, [3 * x - 2 * x2, h] + rest], lambda a: cmp(3 * a[0] - 2 * a[1], a[2], rtol=1e-12, scale=6 * (np.abs(a[0]).max() + np.abs(a[1]).max())))
    if fn != "sum_fftconv" and h.shape == x.shape and min(x.shape) > 1:
        rel("commute", [[x, h] + rest, [h, x] + rest], lambda a: cmp(a[0], a[1], rtol=1e-12, scale=np.abs(x).max() * np.abs(h).max()))
    if fn not in ("sum_fftconv",) and min(h.shape) > 1:
        z = np.zeros((3, x.shape[1]))
        rel("padding", [[x, h] + rest, [np.vstack([x, z]), h] + rest], lambda a: cmp(np.vstack([a[0], np.zeros((3, a[0].shape[1]))]), a[1], rtol=1e-12, scale=np.abs(x).max() * np.abs(h).max() * 4))

def run():
    ck = harness.Check("C19", RULE, ["reflections where the aperture's own cell grid is symmetric; rotations and limits up to the discretization"])
    fns = gen.ALLSIR + calls.DAS + calls.ANALYTIC + calls.CONV
    R = work.Runner("rel", list(dict.fromkeys(calls.targets(fns))))
    m = 300 if ck.thorough else 45
    L = []
    for fn in gen.ALLSIR:
        for i in range(m): sir_relations(ck.subrng(fn, i), fn, L)
    for fn in calls.DAS:
        for i in range(m): das_relations(ck.subrng(fn, i), fn, L)
    for fn in calls.ANALYTIC:
        for i in range(m): analytic_relations(ck.subrng(fn, i), fn, L)
    for fn in calls.CONV:
        for i in range(m): conv_relations(ck.subrng(fn, i), fn, L)
    for i in range(2 * m): convergence(ck.subrng("conv", i), L, ck.thorough and i % 4 == 0)
    for i in range(3 * m): limits(ck.subrng("lim", i), L)
    # all calls, each once
    cases, where = [], []
    for k, (fn, name, Qs, f, P) in enumerate(L):
        env = gen.nthreads_env(ck.subrng("env", k))
        ids = []
        for x in Qs:
            if fn in gen.ALLSIR and "args" not in x: x = gen.oct_sir(x)
            x = dict(x, env=env, nout=1)
            ids.append(len(cases)); cases.append(x)
        where.append(ids)
    # half of what Python offers runs there
    py = [c["fn"] in gen.ALLSIR and i % 3 == 0 for i, c in enumerate(cases)]
    pyc = [dict(c, mod=c["fn"]) for i, c in enumerate(cases) if py[i]]; occ = [c for i, c in enumerate(cases) if not py[i]]
    rp, ro = harness.both(R, pyc, occ)
    ip, io = iter(rp), iter(ro)
    res = [next(ip) if p else next(io) for p in py]
    for (fn, name, Qs, f, P), ids in zip(L, where):
        rs = [res[i] for i in ids]
        cs = [("py" if py[i] else "oct", dict(cases[i], mod=cases[i]["fn"]) if py[i] else cases[i]) for i in ids]
        key = "%s:%s:" % (fn, name)
        if any(r.kind == "skipped" for r in rs):
            ck.skip("skipped"); continue
        bad = [r for r in rs if r.kind != "ok"]
        if bad:
            ck.saw((key, repr(P))); ck.violate(key + "failed", harness.show(bad[0]), cases=cs, info=P); continue
        outs = [np.asarray(r.out) for r in rs]
        ck.saw((key, [harness.asum(o) for o in outs]), nontrivial=any(np.any(o) for o in outs))
        ck.count("relation " + name); ck.count("samples compared", outs[0].size)
        if any(not np.all(np.isfinite(o)) for o in outs):
            ck.violate(key + "finite", "non-finite samples", cases=cs, info=P); continue
        msg = f(outs)
        if msg: ck.violate(key + "broken", msg, cases=cs, info=P)
    for x in L[::max(1, len(L) // 6)]:
        ck.sample(dict(fn=x[0], relation=x[1], case=x[4]), 6)
    return ck.finish()
