"""Analytic impulse responses against the arc angle they stand for, evaluated independently."""
import numpy as np
from vf import gen, calls, work, harness
from vf.gen import row, F, U

RULE = ("one evaluation = one call whose every sample is compared with v*cp times the fraction of the arc of radius sqrt((cp t)^2 - z^2) inside the aperture, with an envelope for arrivals that coincide with a sample "
        "up to rounding; non-trivial when the expected response has a non-zero sample; distinct by function, geometry, points, delays and sampling")
EPS = np.finfo(float).eps

def rect_fraction(x, y, rho, a, b):
    """fraction of the circle of radius rho about (x,y) inside |x|<=a/2, |y|<=b/2"""
    x, y, rho = np.broadcast_arrays(x, y, rho)
    ang = [np.full(x.shape, -np.pi), np.full(x.shape, np.pi)]
    with np.errstate(divide="ignore", invalid="ignore"):
        for e in (-a / 2, a / 2):
            c = np.clip((e - x) / rho, -1, 1)
            t = np.where(np.isfinite(c), np.arccos(c), 0.0)
            ang += [t, -t]
        for e in (-b / 2, b / 2):
            c = np.clip((e - y) / rho, -1, 1)
            t = np.where(np.isfinite(c), np.arcsin(c), 0.0)
            u = np.pi - t
            ang += [t, np.where(u > np.pi, u - 2 * np.pi, u)]
    A = np.sort(np.stack(ang), axis=0)
    m = (A[1:] + A[:-1]) / 2
    X, Y = x + rho * np.cos(m), y + rho * np.sin(m)
    ins = (np.abs(X) <= a / 2) & (np.abs(Y) <= b / 2)
    return ((A[1:] - A[:-1]) * ins).sum(0) / (2 * np.pi)

def circ_angle(d, rho, r, s=0, zz=0.0):
    """half-angle of the arc of radius rho about a point at distance d from the centre of a disc of radius r;
    s: -1, 0, +1 to move the argument of the arccos by its own rounding"""
    num = rho * rho + d * d - r * r
    den = 2 * d * rho
    with np.errstate(divide="ignore", invalid="ignore"):
        c = num / den + s * 16 * EPS * (rho * rho + d * d + r * r + zz) / den
    c = np.where(np.isnan(c), np.where(num > 0, 1.0, -1.0), c)
    return np.arccos(np.clip(c, -1, 1))

def circ_fraction(d, rho, r, s=0, zz=0.0):
    return circ_angle(d, rho, r, s, zz) / np.pi

PERT = [(p, q, w) for p in (-1, 0, 1) for q in (-1, 0, 1) for w in (-1, 0, 1)]

def bounds(case):
    """-> lo, hi (nt x No), stage (0 before, 1 full, 2 arc, 3 after)"""
    fn, Ro, g, dt, nt, delay, v, cp, nint = case
    n = len(Ro)
    d = np.asarray(delay, float).ravel()
    d = np.full(n, d[0]) if d.size == 1 else d
    ct = (np.arange(nt)[:, None] * dt + d[None, :]) / 1e6 * cp
    x, y, z = (Ro[:, k] / 1000.0 for k in range(3))
    k = 16 * EPS
    g = [q / 1000.0 for q in g]
    if fn == "scirc_sir":
        return scirc(ct, x, y, z, g[0], dt * cp / 1e6, nint, v, cp)
    L = []
    dl = k * (np.abs(ct) + np.abs(d[None, :]) * cp / 1e6 + z[None, :])
    tie = np.abs(ct - z[None, :]) <= dl      # the first arrival coincides with a sample: the limit for small radii is allowed, too
    for p, q, w in PERT + [(2, q, w) for q in (-1, 0, 1) for w in (-1, 0, 1)]:
        c = ct if p == 2 else ct + p * k * (np.abs(ct) + np.abs(d[None, :]) * cp / 1e6 + z[None, :])
        on = c >= z[None, :]
        rho = np.sqrt(np.maximum(c * c - (z * z)[None, :], 0.0))
        if p == 2:
            if not tie.any(): break
            on, rho = tie, np.where(tie, 1e-9 * min(g), rho)
        if fn == "rect_sir":
            f = rect_fraction((x + q * k * (np.abs(x) + g[0]))[None, :], (y + w * k * (np.abs(y) + g[1]))[None, :], rho, g[0], g[1])
        else:
            dd = np.hypot(x, y); dd = np.maximum(dd + q * k * (dd + g[0]), 0.0)
            f = circ_fraction(dd[None, :], rho, g[0], w)
            if p == 2:      # a point on the rim: one or one half at the first arrival, whichever way its radius is rounded
                f = np.where((np.abs(dd - g[0]) <= 4 * k * g[0])[None, :] & (q > 0), 1.0, f)
        L.append(np.where(on, f, 0.0) if p < 2 else np.where(on, f, L[0]))
        if (p, q, w) == (0, 0, 0): mid = L[-1]; m_on = on
    L = np.stack(L)
    st = np.where(mid >= 1 - 1e-12, 1, np.where(mid > 0, 2, np.where(m_on & (np.cumsum(mid, 0) > 0), 3, 0)))
    t = 1e-11 * v * cp
    return L.min(0) * v * cp - t, L.max(0) * v * cp + t, st

def scirc(ct, x, y, z, r, w, nint, v, cp):
    """averages over [ct - w/2, ct + w/2] (w = cp dt), the arc part by the trapezoidal rule with nint panels"""
    d = np.hypot(x, y)[None, :]; z = z[None, :]
    near, far = np.sqrt(z * z + (r - d) ** 2), np.sqrt(z * z + (r + d) ** 2)
    a, b = np.maximum(ct - w / 2, 0.0), ct + w / 2
    full = np.where(d < r, np.maximum(np.minimum(b, near) - np.maximum(a, z), 0.0), 0.0)
    s, e = np.maximum(a, near), np.minimum(b, far)
    len_ = np.maximum(e - s, 0.0)
    lo, hi = np.zeros(ct.shape), np.zeros(ct.shape)
    for k in range(nint + 1):       # each panel end with its own rounding
        fs = []
        for sgn, mv in [(p, q) for p in (-1, 0, 1) for q in (-1, 0, 1)]:
            c = (s + len_ * (k / nint)) * (1 + mv * (8 + k) * EPS)
            rho = np.sqrt(np.maximum(c * c - z * z, 0.0))
            fs.append(circ_fraction(np.broadcast_to(d, c.shape), rho, r, sgn, c * c + z * z))
        fs = np.stack(fs); u = 0.5 if k in (0, nint) else 1.0
        lo += fs.min(0) * u; hi += fs.max(0) * u
    out = np.stack([(full + q / nint * len_) / w * v * cp for q in (lo, hi)])
    # ends of the interval that coincide with an arrival: the arc part is bounded by its length
    tie = np.zeros(ct.shape)
    kk = 64 * EPS * (np.abs(ct) + near + far) / w
    edge = np.abs(d - r) < 1e-9 * r
    # on the edge (and on the axis) the arc angle jumps at the first arrival: one panel end is undetermined
    jump = np.where((edge | (d < 1e-9 * r)) & (s <= near * (1 + 16 * EPS)) & (len_ > 0), len_ / nint / 2, 0.0) / w
    t = (1e-11 + kk + jump) * v * cp
    st = np.where(len_ > 0, 2, np.where(full > 0, 1, np.where(a >= far, 3, 0)))
    return out.min(0) - t, out.max(0) + t, st

REG = ["inside", "beside x", "beside y", "beyond the corner", "on the axis", "on an edge", "on a corner", "far away", "nearly on an axis or edge"]
def point(rng, fn, g):
    a, b = (g[0], g[1]) if fn == "rect_sir" else (2 * g[0], 2 * g[0])
    k = int(rng.integers(0, 8))
    sx, sy = rng.choice([-1, 1]), rng.choice([-1, 1])
    if fn == "rect_sir":
        x, y = {0: (U(rng, 0, .5), U(rng, 0, .5)), 1: (U(rng, .5, 2), U(rng, 0, .5)), 2: (U(rng, 0, .5), U(rng, .5, 2)), 3: (U(rng, .5, 2), U(rng, .5, 2)),
                4: (0, 0), 5: (.5, U(rng, 0, 2)) if rng.random() < .5 else (U(rng, 0, 2), .5), 6: (.5, .5), 7: (U(rng, 2, 30), U(rng, 0, 30))}[k]
    else:
        r, th = {0: U(rng, 0, .5), 1: U(rng, .5, 2), 2: U(rng, .5, .6), 3: U(rng, .4, .5), 4: 0, 5: .5, 6: .5, 7: U(rng, 2, 30)}[k], U(rng, 0, np.pi / 2)
        if k == 5 or rng.random() < .2: th = float(rng.choice([0, np.pi / 2]))
        x, y = r * np.cos(th), r * np.sin(th)
        if th == np.pi / 2: x = 0.0
    if rng.random() < .15:      # a hair off an axis or an edge
        h = lambda: float(rng.choice([-1, 1])) * 10 ** U(rng, -10 if rng.random() < .5 else -4.5, -1.5)
        if fn == "rect_sir": x, y = float(rng.choice([0, .5, x])) + h(), float(rng.choice([0, .5, y])) + (h() if rng.random() < .7 else 0)
        else:
            r = abs(float(rng.choice([0, .5])) + h()); x, y = r * np.cos(th), r * np.sin(th)
        k = 8
    t = rng.random()
    z = 0.0 if t < .04 else U(rng, 1e-3, .1) if t < .1 else U(rng, .1, 5) if t < .3 else U(rng, 5, 80)
    return [float(sx * x * a), float(sy * y * b), z], k

def gen_case(rng, fn, i):
    dyadic = i % 4 == 0      # every quantity a short binary fraction: arrivals coincide with samples
    g = [U(rng, .5, 20), U(rng, .5, 20)] if fn == "rect_sir" else [U(rng, .3, 12)]
    if rng.random() < .1: g = [g[0] * 1e-2] + g[1:]
    dt, cp, v = U(rng, .005, .2), U(rng, 300, 6500), U(rng, .2, 4)
    if dyadic:
        g = [float(np.round(q * 2) / 2 + .5) for q in g]
        dt, cp, v = float(rng.choice([.25, .5, .125])), 1000.0, float(rng.choice([1, 2, .5]))
    nt = int(rng.choice([1, 2, 7, 50, 100, 200, 400]))
    no = gen.batch(rng, [1, 2, 3, 5, 8, 13], .03)
    if no > 60: nt = min(nt, 50)
    big = i % 16 == 5        # long windows or many points
    if big: nt, no = [(3000, 2), (1100, 5), (20, 150)][int(rng.integers(0, 3))]
    P, K = zip(*[point(rng, fn, g) for _ in range(no)])
    Ro = np.array(P)
    if dyadic:
        Ro = np.round(Ro * 4) / 4
        if rng.random() < .3: Ro[:, 2] = np.round(Ro[:, 2])
    span = np.hypot(*(np.abs(Ro[:, :2]) + max(g)).T)
    t0 = Ro[:, 2] * 1e3 / cp                                    # earliest and last arrival
    t1 = np.sqrt(Ro[:, 2] ** 2 + span ** 2) * 1e3 / cp
    far = np.hypot(*np.maximum(np.abs(Ro[:, :2]) - max(g), 0).T)
    t0 = np.where(rng.random(no) < .7, np.sqrt(Ro[:, 2] ** 2 + far ** 2) * 1e3 / cp, t0)
    ppd = no > 1 and rng.random() < .5
    if not dyadic and rng.random() < .6:      # a sampling that puts the window over the response
        dt = float(np.clip((t1 - t0).max() / nt * U(rng, .5, 1.5), 1e-4, .5))
    d = t0 - nt * dt * rng.uniform(-.1, .3, no) if ppd else np.array([(t0.min() if rng.random() < .7 else t0[0]) - nt * dt * U(rng, -.1, .3)])
    if not dyadic and rng.random() < .2:      # the window over a short part of the response of one point (between two arrivals)
        q = int(rng.integers(no)); x, y, z = np.abs(Ro[q]); a, b = (g[0] / 2, g[1] / 2) if fn == "rect_sir" else (g[0], 0.0)
        if fn == "rect_sir":
            L = [abs(x - a), x + a, abs(y - b), y + b, np.hypot(x - a, y - b), np.hypot(x + a, y - b), np.hypot(x - a, y + b), np.hypot(x + a, y + b), 0.0]
        else:
            L = [abs(np.hypot(x, y) - a), np.hypot(x, y) + a]
        L = sorted(rng.choice(L, 2, replace=False)); u = np.sqrt(z * z + np.array(L) ** 2) * 1e3 / cp
        if (u[1] - u[0]) / nt > 1e-6:
            dt = float((u[1] - u[0]) / nt * U(rng, .7, 1.4))
            d = np.array([u[0] - dt * U(rng, 0, .5)]); ppd = False
    if rng.random() < .1: d = d * 0
    if ppd: d = gen.special(rng, d)
    if dyadic: d = np.round(d * 4) / 4
    nint = int(rng.choice([1, 2, 3, 5, 10, 30]))
    if i % 12 == 7 and no * nt <= 3000: nint = int(rng.choice([64, 101, 150, 257, 1000]))
    return (fn, Ro, g, dt, nt, d.reshape(-1, 1) if rng.random() < .5 else d.reshape(1, -1), v, cp, nint), K

def args_of(c):
    fn, Ro, g, dt, nt, delay, v, cp, nint = c
    a = [F(Ro), row(*g), row(dt, nt), F(delay), row(v, cp)]
    return a + [row(nint)] if fn == "scirc_sir" else a

def run():
    ck = harness.Check("C17", RULE, ["observation points in front of or in the plane of the aperture (z >= 0)"])
    R = work.Runner("rel", calls.targets(calls.ANALYTIC))
    m = 6000 if ck.thorough else 1000
    C, K = [], []
    for fn in calls.ANALYTIC:
        for i in range(m):
            c, k = gen_case(ck.subrng(fn, i), fn, i)
            C.append((c, gen.nthreads_env(ck.subrng("e", fn, i)))); K.append(k)
    res = R.run("oct", [dict(fn=c[0], args=args_of(c), env=e) for c, e in C], par=8)
    B = harness.pmap(bounds, [c for c, _ in C])
    for (c, env), k, r, (lo, hi, st) in zip(C, K, res, B):
        fn = c[0]
        case = dict(fn=fn, args=args_of(c), env=env)
        info = dict(fn=fn, Ro=c[1], geom=c[2], dt=c[3], nt=c[4], delay=c[5], v=c[6], cp=c[7], n_int=c[8], env=env)
        if r.kind == "skipped":
            ck.skip("skipped"); continue
        if r.kind != "ok":
            ck.violate("%s:%s" % (fn, r.kind), harness.show(r), "oct", case, info=info); continue
        h = np.asarray(r.out)
        ck.saw((fn, harness.asum(c[1]), repr(c[2:])), nontrivial=bool(np.any(st > 0) and np.any(hi > 1e-9 * c[6] * c[7])))
        if h.shape != lo.shape:
            ck.violate(fn + ":shape", "shape %s, expected %s" % (h.shape, lo.shape), "oct", case, info=info); continue
        for q in k: ck.count("%s points %s" % (fn, REG[q] if fn == "rect_sir" else {1: "outside", 2: "just outside", 3: "just inside"}.get(q, REG[q])))
        for q, nm in enumerate(("before", "full circle", "arc", "after")): ck.count("%s samples: %s" % (fn, nm), int(np.sum(st == q)))
        ck.count("samples decided up to 1e-9", int(np.sum(hi - lo < 1e-9 * c[6] * c[7])))
        ck.count("samples with a wider envelope", int(np.sum(hi - lo >= 1e-9 * c[6] * c[7])))
        bad = ~((h >= lo) & (h <= hi))
        if bad.any():
            i, n = np.argwhere(bad)[0]
            ck.violate(fn + ":value", "%d samples wrong; sample %d of point %d %s: %.17g, expected %.17g .. %.17g" % (int(bad.sum()), i, n, c[1][n].tolist(), h[i, n], lo[i, n], hi[i, n]), "oct", case, info=info)
    for c, _ in C[::max(1, len(C) // 9)]:
        ck.sample(dict(fn=c[0], Ro=c[1], geom=c[2], dt=c[3], nt=c[4]), 9)
    return ck.finish()
