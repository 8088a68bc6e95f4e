"""Random well-formed cases for the SIR functions and their Python/Octave argument lists."""
import math
import numpy as np
from . import oracle

SIR5 = ["dreamline", "dreamrect", "dreamcirc", "dreamsphere", "dreamcylind"]
FOC2 = ["dreamrect_f", "dreamcirc_f"]
ARR3 = ["dream_arr_rect", "dream_arr_circ", "dream_arr_cylind"]
ALLSIR = SIR5 + FOC2 + ARR3 + ["dream_arr_annu"]
FOCS = ["off", "x", "y", "xy", "x+y", "ud"]
STEERS = ["off", "x", "y", "xy"]
APODS = ["off", "ud", "triangle", "gauss", "raised", "hann", "hamming", "simply", "clamped"]

def row(*x):
    return np.array([list(x)], dtype=float)

def U(rng, a, b):
    return float(rng.uniform(a, b))

def off_int(rng, lo, hi, d):
    """a length near [lo,hi] whose ratio to d is not near a half-integer"""
    t = rng.random()
    k0 = max(1, int(lo / d))
    if t < .15:     # a whole number of cells
        return float(d * int(rng.integers(k0, max(k0 + 1, int(hi / d)) + 1)))
    if t < .2:      # less than one cell, or a single cell
        return float(d * rng.choice([0.3, 0.6, 0.8, 1.0, 1.2, 1.4]))
    k = rng.integers(k0, max(k0 + 1, int(hi / d)) + 1)
    return float(d * (k + rng.uniform(-0.4, 0.4)))

def gen_points(rng, no, size, depth=(5, 60), wild=0.25):
    Ro = np.zeros((no, 3))
    for i in range(no):
        t = rng.random()
        if t < wild * 0.3:      # on the axis
            Ro[i] = [0, 0, U(rng, *depth)]
        elif t < wild * 0.6:    # far to the side, shallow
            Ro[i] = [U(rng, -4, 4) * size, U(rng, -4, 4) * size, U(rng, 0.3, 5)]
        elif t < wild:          # behind
            Ro[i] = [U(rng, -1, 1) * size, U(rng, -1, 1) * size, -U(rng, 1, 20)]
        else:
            Ro[i] = [U(rng, -1.5, 1.5) * size, U(rng, -1.5, 1.5) * size, U(rng, *depth)]
        if wild and rng.random() < .12:
            t = int(rng.integers(6))
            if t < 2: Ro[i, t] = 0.0                                       # in a symmetry plane
            elif t == 2: Ro[i] = Ro[int(rng.integers(i + 1))]              # the same point again
            elif t == 3: Ro[i] = [(2 + rng.random()) * size, U(rng, -3, 3) * size, 0.0]    # in the plane of the aperture, outside
            elif t == 4: Ro[i] *= U(rng, 3, 12)                            # far away
            else: Ro[i, 2] = float(np.rint(Ro[i, 2])) or 1.0
    return Ro

def gen_geom(rng, kind, dx, dy, scale):
    if kind == "line":
        return [off_int(rng, 3 * dx, scale, dx)]
    if kind == "rect":
        return [off_int(rng, 2 * dx, scale, dx), off_int(rng, 2 * dy, scale, dy)]
    if kind == "circ":
        return [off_int(rng, 2 * dy, scale / 2, dy / 2) + dy]
    if kind == "sphere":
        R = off_int(rng, 2 * dy, scale / 2, dy / 2) + dy
        return [R, (1 if rng.random() < .5 else -1) * R * U(rng, 1.05, 8)]
    if kind == "cylind":
        a, b = off_int(rng, 2 * dx, scale, dx), off_int(rng, 2 * dy, scale, dy)
        Rc = max(b / 2, dy) * U(rng, 1.05, 8)
        return [a, b, (1 if rng.random() < .5 else -1) * Rc]
    raise KeyError(kind)

def gen_elements(rng, ne=None):
    t = rng.random()
    if t < 0.3:      # linear x
        n = ne or int(rng.integers(2, 9)); p = U(rng, 0.5, 2)
        G = np.column_stack([(np.arange(n) - (n - 1) / 2) * p, np.zeros(n), np.zeros(n)])
        if rng.random() < .5:
            G[:, 1] = 0.0
    elif t < 0.45:   # linear y
        n = ne or int(rng.integers(2, 9)); p = U(rng, 0.5, 2)
        G = np.column_stack([np.zeros(n), (np.arange(n) - (n - 1) / 2) * p, np.zeros(n)])
    elif t < 0.75:   # 2-D grid
        nx, ny = int(rng.integers(2, 4)), int(rng.integers(2, 5))
        X, Y = np.meshgrid((np.arange(nx) - (nx - 1) / 2) * U(rng, .5, 2), (np.arange(ny) - (ny - 1) / 2) * U(rng, .5, 2))
        G = np.column_stack([X.ravel(), Y.ravel(), np.zeros(X.size)])
    else:            # scattered, with depth
        n = ne or int(rng.integers(1, 9))
        G = np.column_stack([rng.uniform(-4, 4, n), rng.uniform(-4, 4, n), rng.uniform(-1.5, 1.5, n)])
    if rng.random() < .2:
        G = G + np.array([[U(rng, 0, 2), U(rng, -2, 0), 0]])
    if rng.random() < .12:    # in another order, or an element twice
        G = G[rng.permutation(len(G))]
        if rng.random() < .4:
            G[-1] = G[0]
    return stacked(rng, G)

def stacked(rng, G, p=.12):
    """now and then, neighbours that differ in one coordinate only"""
    if len(G) > 1 and rng.random() < p:
        G = np.array(G, float)
        k = int(rng.integers(3))
        for n in range(1, len(G)):
            if rng.random() < .6:
                G[n] = G[n - 1]
                G[n, k] += U(rng, -1.5, 1.5)
    return G

def gen_foc(rng, met, ne, dt):
    if met == "ud":
        f = rng.uniform(0, 1.5, ne)
        if rng.random() < .4:
            f = rng.uniform(-1, 1, ne)
        f = f.reshape(-1, 1) if rng.random() < .5 else f.reshape(1, -1)
    else:
        f = row(gen_focal(rng, 5, 80))
    return (met, f)

def gen_focal(rng, lo, hi):
    if rng.random() < .1:
        return float(rng.choice([0.0, -20.0, .05, -.7, 1e3, 1e4]))
    return U(rng, lo, hi)

def gen_apod(rng, met, ne):
    v = rng.uniform(0, 2, ne) * np.where(rng.random(ne) < .15, -1, 1)
    if rng.random() < .15:
        v[rng.random(ne) < .4] = 0.0
    v = v.reshape(-1, 1) if rng.random() < .5 else v.reshape(1, -1)
    p = U(rng, 0.1, 3)
    if rng.random() < .12:
        p = float(rng.choice([0.0, -.5, 1.0, 10.0, 1e-3, 25.0, 60.0, -2.0]))
    return (met, v, p)

def gen_angles(rng):
    a = [U(rng, -40, 40), U(rng, -40, 40)]
    if rng.random() < .12:
        a[int(rng.integers(2))] = float(rng.choice([0, 90, -90, 60, -75, 120, 180]))
    elif rng.random() < .12:
        a[int(rng.integers(2))] += float(rng.choice([-360, -180, 180, 270, 360, 720]))
    return row(*a)

def batch(rng, L, p=.06):
    """a size of the batch axis: one of L, now and then more than the 64 the hand-written lists stop at"""
    return int(rng.choice([64, 65, 96, 129, 200])) if rng.random() < p else int(rng.choice(L))

def gen_sir(rng, fn, no=None, **kw):
    P = _gen_sir(rng, fn, no=no, **kw)
    if no is not None and no >= 64:       # bounded work: big batches of small apertures
        from checks import sirval
        for _ in range(60):
            if sirval.cells(P) * no * (1 if P["m"][2] == 0 else 0.3 * P["s"][3]) < 60000: break
            P = _gen_sir(rng, fn, no=no, **kw)
        else:
            P = _gen_sir(rng, fn, no=9, **kw)
    return P

def _gen_sir(rng, fn, no=None, alpha=0.0, fit=True, foc=None, steer=None, apod=None, max_cells=3000, per_point_delay=None, nt=None, wild=0.25, err="stop", ne=None):
    arr = fn.startswith("dream_arr_") and fn != "dream_arr_annu"
    P = dict(fn=fn, err=err)
    if no is None:
        no = int(rng.choice([1, 2, 3, 5, 7, 8, 9, 12, 16, 17, 23]))
    scale = float(rng.choice([1.5, 4, 12, 25])) if not arr else float(rng.choice([0.8, 2, 4]))
    div = int(rng.choice([4, 8, 14, 22])) if not arr else int(rng.choice([2, 4, 7]))
    if alpha > 0:
        div = min(div, 8 if not arr else 4)
    dx = scale / div * U(rng, .8, 1.3)
    dy = dx if rng.random() < .3 else dx * U(rng, .5, 2)
    dt = float(rng.choice([0.01, 0.02, 0.04, 0.05, 0.1])) * (1 if rng.random() < .5 else U(rng, .7, 1.3))
    v = 1.0 if rng.random() < .3 else U(rng, .2, 4)
    t = rng.random()
    if t < .05:
        v = -v
    elif t < .08:
        v *= float(rng.choice([0.0, 1e-12, 1e-6, 1e6, 1e12]))
    if rng.random() < .06:
        dt = float(rng.choice([1e-3, 2e-3, .25, .5, 1.0, 2.0]))
    fine = alpha == 0 and not arr and no <= 3 and rng.random() < .06
    if fine:
        dx /= 6; dy /= 5
    if rng.random() < .06:    # long cells
        dx, dy = (dx, dy * 6) if rng.random() < .5 else (dx * 6, dy)
    cp = 1500.0 if rng.random() < .3 else U(rng, 300, 6500)
    P["m"] = (v, cp, float(alpha))
    if fn == "dream_arr_annu":
        nr = int(rng.choice([1, 3, 5, 7, 9])) if ne is None else 2 * ne - 1
        if ne is None and alpha == 0 and no <= 3 and rng.random() < .05:
            nr = int(rng.choice([15, 21, 33, 65]))
        r = rng.uniform(.5, 2, nr)
        if rng.random() < .25:      # touching rings, rings and gaps without width
            r[1:][rng.random(nr - 1) < U(rng, .1, .6)] *= float(rng.choice([0.0, 0.0, 1e-5]))
        r = np.cumsum(r) * scale / 8
        dx = r[0] / U(rng, 1.2, 4); dy = dx * U(rng, .7, 1.3)
        while (r[-1] / dx) * (r[-1] / dy) * 4 * nr > 12000:
            dx *= 1.3; dy *= 1.3
        if rng.random() < .3:
            r[0] = 0.0
        P["G"] = r
        size = r[-1]
    else:
        P["geom"] = gen_geom(rng, oracle.KIND[fn], dx, dy, scale)
        size = max(scale, 1.0)
    if arr:
        if ne is None and alpha == 0 and no <= 3 and rng.random() < .06:    # many small elements
            ne = int(rng.choice([33, 64, 65, 100, 128, 129, 200, 257]))
            g = P["geom"]
            if oracle.KIND[fn] == "circ": g[0] = 1.2 * max(dx, dy)
            else: g[0] = dx * U(rng, 1.7, 2.4); g[1] = min(g[1], dy * U(rng, .7, 1.4)) 
        P["G"] = gen_elements(rng, ne)
        size += 3
        nel = len(P["G"])
        P["foc"] = gen_foc(rng, foc or str(rng.choice(FOCS)), nel, dt)
        P["steer"] = (steer or str(rng.choice(STEERS)), gen_angles(rng))
        P["apod"] = gen_apod(rng, apod or str(rng.choice(APODS)), nel)
    elif fn == "dream_arr_annu":
        nel = (nr + 1) // 2
        m = foc or str(rng.choice(["off", "x", "y", "xy", "x+y", "ud"]))
        P["foc"] = gen_foc(rng, m, nel, dt)
        am = apod or str(rng.choice(APODS))
        if nel < 2 and am not in ("off", "ud"):
            am = "off"      # the window's extent is zero
        P["apod"] = gen_apod(rng, am, nel)
    elif fn in FOC2:
        m = foc or str(rng.choice(["off", "x", "y", "xy", "x+y"]))
        P["foc"] = (m, row(gen_focal(rng, 3, 80)))
    if arr and P["apod"][0] not in ("off", "ud"):
        xm, ym = np.abs(P["G"][:, 0]).max(), np.abs(P["G"][:, 1]).max()
        if math.hypot(xm, ym) < 1e-6:
            P["apod"] = ("off",) + P["apod"][1:]
    P["Ro"] = gen_points(rng, no, size, depth=(2, 60), wild=wild)
    if no > 1 and rng.random() < .1:      # runs of the same point
        P["Ro"] = P["Ro"][np.sort(rng.integers(0, no, no))]
    # Keep r away from zero
    P["s"] = (dx, dy, dt, 10)
    P["delay"] = row(0.0)
    # choose delays/window from the actual arrival range
    lo, hi = arrival_range(P)
    if nt is None and not fit:
        nt = int(rng.choice([7, 16, 33, 64, 100, 257]))
    ppd = per_point_delay if per_point_delay is not None else rng.random() < .5
    if no == 1:
        ppd = False
    margin = 3 * dt
    if fit:
        # the window must span (hi-lo) for the points; coarsen dt to keep nt reasonable
        spans = (hi - lo) if ppd else np.array([hi.max() - lo.min()])
        span = float(spans.max()) + 2 * margin
        cap = 900 if alpha == 0 else 160
        if nt is not None:
            cap = nt - 8
        if span / dt > cap:
            dt = span / cap * 1.01
            P["s"] = (dx, dy, dt, 10)
            lo, hi = arrival_range(P)
            span = float(((hi - lo) if ppd else np.array([hi.max() - lo.min()])).max()) + 6 * dt
        n = int(math.ceil(span / dt)) + int(rng.integers(2, 40)) if nt is None else nt
        if nt is None and alpha == 0 and no <= 5 and rng.random() < .04:
            n += int(rng.choice([1000, 2048, 5000]))
        if ppd:
            d = lo - dt * rng.integers(1, 3, no)
        else:
            d = np.array([lo.min() - dt * int(rng.integers(1, 3))])
        if ppd and nt is None and alpha == 0 and rng.random() < .25:      # a zero among the delays: the window starts at time zero
            k = int(rng.integers(no)) if rng.random() < .5 else no - 1
            if 0 < hi[k] / dt < 3000:
                d[k] = 0.0
                n = max(n, int(math.ceil(hi[k] / dt)) + 3)
        if not ppd and d[0] > 0 and nt is None and d[0] / dt < 200 and rng.random() < .3:
            n += int(d[0] / dt) + 2
            d = np.array([0.0])
        P["s"] = (dx, dy, dt, n)
    else:
        mid = (lo + hi) / 2
        if ppd:
            d = special(rng, mid - dt * nt * rng.uniform(-.3, 1.2, no))
        else:
            d = np.array([float(np.median(mid)) - dt * nt * U(rng, 0, 1)])
        P["s"] = (dx, dy, dt, nt)
    d = d.astype(float)
    P["delay"] = d.reshape(-1, 1) if rng.random() < .5 else d.reshape(1, -1)
    return P

def special(rng, d):
    """vectors of delays with zeros, repetitions and opposite signs among them"""
    d = np.array(d, float)
    if d.size > 1 and rng.random() < .4:
        sel = rng.random(d.size) < U(rng, .1, .7)
        t = rng.random()
        if t < .5: d[sel] = 0.0
        elif t < .7: d[sel] = d[0]
        elif t < .8: d[sel] = np.roll(d, 1)[sel]
        elif t < .9: d[sel] *= -1
        else: d[sel] = np.round(d[sel])
    return d

def arrival_range(P):
    lo, hi = [], []
    dt = P["s"][2]
    for n in range(len(P["Ro"])):
        if P["fn"] == "dream_arr_annu":
            G = np.asarray(P["G"]).ravel()
            Q = dict(P, fn="dreamcirc", geom=[G[-1]], delay=row(0.0))
            _, _, q, _ = oracle.contributions(Q, n)
        else:
            _, _, q, _ = oracle.contributions(P, n)
        if q.size == 0:
            q = np.zeros(1)
        lo.append(q.min() * dt); hi.append(q.max() * dt)
    lo, hi = np.array(lo), np.array(hi)
    if P["fn"] == "dream_arr_annu":
        fd, _ = oracle.annular_laws(P)
        lo = lo + min(0, fd.min()); hi = hi + max(0, fd.max())
    return lo, hi

# ------------------------------------------------------------------ argument lists
F = np.asfortranarray
def sir_args(P):
    """positional arguments up to (not including) err_level; identical order in both languages"""
    fn = P["fn"]
    s = row(*P["s"]); m = row(*P["m"])
    Ro = F(P["Ro"])
    dl = F(P["delay"])
    if fn == "dream_arr_annu":
        G = np.asarray(P["G"]).reshape(1, -1) if P.get("Grow", True) else np.asarray(P["G"]).reshape(-1, 1)
        return [Ro, F(G), s, dl, m, P["foc"][0], F(P["foc"][1]), P["apod"][0], F(P["apod"][1]), row(P["apod"][2])]
    g = row(*P["geom"])
    if fn in ARR3:
        return [Ro, g, F(P["G"]), s, dl, m, P["foc"][0], F(P["foc"][1]), P["steer"][0], F(P["steer"][1]),
                P["apod"][0], F(P["apod"][1]), row(P["apod"][2])]
    if fn in FOC2:
        return [Ro, g, s, dl, m, P["foc"][0], F(P["foc"][1])]
    return [Ro, g, s, dl, m]

def py_sir(P, env=None, err=None, **kw):
    a = sir_args(P)
    # Python takes scalars of vectors by array only; win_par is an array argument there as well
    return dict(mod=P["fn"], fn=P["fn"], args=a + ([] if (err or P["err"]) == "<default>" else [err or P["err"]]), env=env, **kw)

def oct_sir(P, env=None, err=None, nout=2, **kw):
    a = sir_args(P)
    e = err or P["err"]
    return dict(fn=P["fn"], args=a + ([e] if e != "<default>" else []), env=env, nout=nout, **kw)

def nthreads_env(rng, choices=(None, 1, 2, 3, 4, 5, 7, 8)):
    c = choices[int(rng.integers(len(choices)))]
    return {} if c is None else {"DREAM_NUM_THREADS": str(c)}

def brief(P):
    """JSON-able rendering of a case"""
    def j(x):
        if isinstance(x, np.ndarray):
            return x.tolist() if x.size <= 60 else dict(shape=list(x.shape), head=x.ravel()[:12].tolist())
        if isinstance(x, (np.floating, np.integer)):
            return x.item()
        if isinstance(x, (list, tuple)):
            return [j(y) for y in x]
        if isinstance(x, dict):
            return {str(k): j(y) for k, y in x.items()}
        if isinstance(x, (str, int, float, bool)) or x is None:
            return x
        return repr(x)
    return j(P)
