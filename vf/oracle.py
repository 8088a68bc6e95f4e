"""Independent reference models (numpy). Units as in the toolbox: mm, us, m/s."""
import math
import numpy as np

TIE = 1e-6      # |frac - 0.5| below this: either neighbouring sample is accepted
EPS = np.finfo(float).eps

# ------------------------------------------------------------------ surface grids
def _mid(lo, hi, d):
    """midpoints lo+d/2, +d, ... <= hi, accumulated; returns (x, optional flag for the one in doubt)"""
    if not d > 0:
        raise ValueError
    n = int(math.floor((hi - lo) / d + 2))
    x = np.cumsum(np.concatenate([[lo + d / 2.0], np.full(max(n, 0), d)]))
    tol = 1e-9 * max(abs(hi), abs(d), 1e-30)
    keep = x <= hi + tol
    x = x[keep]
    opt = x > hi - tol
    return x, opt

def grid_rect(a, b, dx, dy):
    xs, ox = _mid(-a / 2, a / 2, dx)
    ys, oy = _mid(-b / 2, b / 2, dy)
    X, Y = np.meshgrid(xs, ys)
    OX, OY = np.meshgrid(ox, oy)
    return X.ravel(), Y.ravel(), (OX | OY).ravel(), dx * dy

def grid_line(a, dx, dy):
    xs, ox = _mid(-a / 2, a / 2, dx)
    return xs, np.zeros_like(xs), ox, dx * dy

def grid_circ(R, dx, dy):
    ys, oy = _mid(-R, R, dy)
    X, Y, O = [], [], []
    for y, o in zip(ys, oy):
        q = R * R - y * y
        h = math.sqrt(max(q, 0.0))
        xs, ox = _mid(-h, h, dx)
        X.append(xs); Y.append(np.full(xs.shape, y)); O.append(ox | o)
    if not X:
        return np.zeros(0), np.zeros(0), np.zeros(0, bool), dx * dy
    return np.concatenate(X), np.concatenate(Y), np.concatenate(O), dx * dy

def grid_cyl(a, b, Rc, dx, dy):
    R = abs(Rc)
    h = b / 2.0
    half = math.asin(min(1.0, h / R))      # half opening angle of the strip of width b
    dphi = math.asin(dy / R)
    ph, op = _mid(-half, half, dphi)
    xs, ox = _mid(-a / 2, a / 2, dx)
    X, PH = np.meshgrid(xs, ph)
    OX, OP = np.meshgrid(ox, op)
    return X.ravel(), (R * np.sin(PH)).ravel(), (OX | OP).ravel(), R * dx * dphi

def surface(kind, geom, dx, dy):
    """-> X, Y, Z(surface), optional, dS"""
    if kind == "line":
        X, Y, O, ds = grid_line(geom[0], dx, dy); Z = np.zeros_like(X)
    elif kind == "rect":
        X, Y, O, ds = grid_rect(geom[0], geom[1], dx, dy); Z = np.zeros_like(X)
    elif kind == "circ":
        X, Y, O, ds = grid_circ(geom[0], dx, dy); Z = np.zeros_like(X)
    elif kind == "sphere":
        X, Y, O, ds = grid_circ(geom[0], dx, dy)
        Rc = abs(geom[1]); Z = Rc - np.sqrt(Rc * Rc - X * X - Y * Y)
        if geom[1] < 0: Z = -Z
    elif kind == "cylind":
        X, Y, O, ds = grid_cyl(geom[0], geom[1], geom[2], dx, dy)
        Rc = abs(geom[2]); Z = Rc - np.sqrt(np.maximum(Rc * Rc - Y * Y, 0))
        if geom[2] < 0: Z = -Z
    else:
        raise KeyError(kind)
    return X, Y, Z, O, ds

# ------------------------------------------------------------------ delay and weight laws
def focus_law(met, f, x, y, xm, ym, rm, cp):
    """extra delay [us]"""
    if met in ("off", None):
        return np.zeros(np.broadcast(x, y).shape)
    s = lambda u2: np.sqrt(u2 + f * f)
    if met == "x":
        d = s(xm * xm) - s(x * x)
    elif met == "y":
        d = s(ym * ym) - s(y * y)
    elif met == "xy":
        d = s(rm * rm) - s(x * x + y * y)
    elif met == "x+y":
        d = s(rm * rm) - (s(x * x) + s(y * y))
    else:
        raise KeyError(met)
    return d * 1e3 / cp

def steer_law(met, th, ph, x, y, xm, ym, cp):
    sx, sy = math.sin(math.radians(th)), math.sin(math.radians(ph))
    d = np.zeros(np.broadcast(x, y).shape)
    if met in ("x", "xy"):
        d = d + (xm + x) * sx
    if met in ("y", "xy"):
        d = d + (ym + y) * sy
    return d * 1e3 / cp

def apod_law(met, r, rm, p):
    u = r / rm
    if met == "triangle": return 1 - np.abs(u)
    if met == "gauss": return np.exp(-p * u * u)
    if met == "raised": return p + np.cos(np.pi * u)
    if met == "hann": return 0.5 + 0.5 * np.cos(np.pi * u)
    if met == "hamming": return 25 / 46 + 21 / 46 * np.cos(np.pi * u)
    if met == "simply": return 1 - u * u
    if met == "clamped": return (1 - u * u) ** 2
    raise KeyError(met)

# ------------------------------------------------------------------ contributions
KIND = {"dreamline": "line", "dreamrect": "rect", "dreamcirc": "circ", "dreamsphere": "sphere", "dreamcylind": "cylind",
        "dreamrect_f": "rect", "dreamcirc_f": "circ", "dream_arr_rect": "rect", "dream_arr_circ": "circ", "dream_arr_cylind": "cylind"}

def delay_of(P, n):
    d = np.asarray(P["delay"]).ravel(order="F")
    return d[0] if d.size == 1 else d[n]

def contributions(P, n):
    """All surface contributions for observation point n: amplitude ai, distance r, sample position q, optional flag."""
    fn = P["fn"]
    xo, yo, zo = P["Ro"][n]
    dx, dy, dt, nt = P["s"]
    v, cp, alpha = P["m"]
    X, Y, Z, O, ds = surface(KIND[fn], P["geom"], dx, dy)
    dl = delay_of(P, n)
    def cells(ox, oy, oz, delay, w, extra=0.0):
        r = np.sqrt((ox - X) ** 2 + (oy - Y) ** 2 + (oz - Z) ** 2)
        with np.errstate(divide="ignore", invalid="ignore"):
            ai = w * v * ds / (2 * np.pi * r) / dt * 1000.0
        q = (r * 1000.0 / cp - delay + extra) / dt
        return ai, r, q
    if fn in ("dreamrect_f", "dreamcirc_f"):
        met, f = P["foc"]
        f = float(np.asarray(f).ravel()[0]) if np.asarray(f).size else 0.0
        if fn == "dreamrect_f":
            a, b = P["geom"]
            ex = focus_law(met, f, X, Y, a, b, math.hypot(a, b), cp)
        else:
            R = P["geom"][0]
            ex = focus_law(met, f, X, Y, R, R, R, cp)
        ai, r, q = cells(xo, yo, zo, dl, 1.0, ex)
        return ai, r, q, O
    if fn.startswith("dream_arr_"):
        G = np.asarray(P["G"])
        fd, sd, w = element_laws(P)
        L = [cells(xo - g[0], yo - g[1], zo - g[2], dl - fd[k] - sd[k], w[k]) for k, g in enumerate(G)]
        return (np.concatenate([x[0] for x in L]), np.concatenate([x[1] for x in L]),
                np.concatenate([x[2] for x in L]), np.tile(O, len(G)))
    ai, r, q = cells(xo, yo, zo, dl, 1.0)
    return ai, r, q, O

def element_laws(P):
    G = np.asarray(P["G"], float)
    cp = P["m"][1]
    gx, gy = G[:, 0], G[:, 1]
    xm, ym = np.abs(gx).max(), np.abs(gy).max()
    rm = math.hypot(xm, ym)
    met, f = P["foc"]
    f = np.asarray(f, float).ravel()
    if met == "ud":
        fd = f
    else:
        fd = focus_law(met, f[0] if f.size else 0.0, gx, gy, xm, ym, rm, cp)
    smet, sp = P["steer"]
    sp = np.asarray(sp, float).ravel()
    sd = steer_law(smet, sp[0], sp[1], gx, gy, xm, ym, cp)
    amet, av, ap = P["apod"]
    if amet == "off":
        w = np.ones(len(G))
    elif amet == "ud":
        w = np.asarray(av, float).ravel()
    else:
        w = apod_law(amet, np.hypot(gx, gy), rm, ap)
    return fd, sd, w

# ------------------------------------------------------------------ attenuation
def att_spectrum(r, it, alpha, dt, nt):
    """one-sided spectrum (k=0..nt//2) of the attenuation impulse response; r, it arrays"""
    k = np.arange(0, nt // 2 + 1)
    f = k / (nt * dt * 1e-6)                    # Hz
    w = 2 * np.pi * f
    A = alpha / 8.686e4                         # Neper / (m Hz)
    rm = np.asarray(r)[:, None] * 1e-3
    t = np.asarray(it)[:, None] * dt * 1e-6
    with np.errstate(divide="ignore", invalid="ignore"):
        lg = np.where(k > 0, np.log(np.pi / (0.95 * dt * 1e-6 * np.where(k > 0, w, 1.0))), 0.0)
    mag = np.exp(-rm * A * f)
    ph = -(w * rm * A / np.pi ** 2) * lg - t * w
    S = mag * np.exp(1j * ph)
    S[:, 0] = 1.0
    return S

def att_time(S, nt):
    """real part of the inverse DFT of the Hermitian extension whose bin k and nt-k are S, conj(S)"""
    F = np.zeros(nt, complex)
    F[0] = S[0]
    for k in range(1, nt // 2 + 1):
        F[k] = S[k]
        F[nt - k] = np.conj(S[k])
    return np.real(np.fft.ifft(F))

# ------------------------------------------------------------------ expected column
class Col:
    """expected column: h within [lo, hi] sample-wise after tolerance; n_out contributions outside the window"""
    def __init__(self, h, slack, certain_out, maybe_out, n, scale, hit, mag=None):
        self.mag = mag          # per sample, the sum of the contributions' absolute values (lossless media)
        self.h, self.slack, self.certain_out, self.maybe_out, self.n, self.scale, self.hit = h, slack, certain_out, maybe_out, n, scale, hit

def column(P, n):
    dx, dy, dt, nt = P["s"]
    nt = int(nt)
    v, cp, alpha = P["m"]
    ai, r, q, opt = contributions(P, n)
    c = bins(ai, r, q, opt, nt, dt, alpha)
    if P["fn"].startswith("dream_arr_") and ai.size:
        # a weight that is a difference of two numbers near 1 carries their rounding, not its own
        w = np.abs(element_laws(P)[2])
        aa = np.abs(ai).reshape(len(w), -1).sum(1)
        nz = w > 0
        if nz.any():
            base = aa[nz] / w[nz]
            c.scale = float(np.sum(base * np.maximum(1.0, w[nz])) + np.count_nonzero(~nz) * base.max())
    return c

def bins(ai, r, q, opt, nt, dt, alpha):
    it = np.rint(q)
    fr = np.abs(np.abs(q - np.floor(q)) - 0.5)
    tie = fr < TIE + 4 * EPS * np.abs(q) * 8
    amb = tie | opt
    cert = ~amb
    inw = (it >= 0) & (it < nt)
    h = np.zeros(nt)
    slack = np.zeros(nt)
    hit = np.zeros(nt, bool)
    scale = float(np.sum(np.abs(ai[np.isfinite(ai)]))) if ai.size else 0.0
    mag = None
    certain_out = int(np.count_nonzero(cert & ~inw))
    maybe = 0
    if alpha > EPS:
        m = cert & inw
        if m.any():
            acc = np.zeros(nt // 2 + 1, complex)
            idx = np.flatnonzero(m)
            for s in range(0, idx.size, 2048):
                j = idx[s:s + 2048]
                acc += (ai[j][:, None] * att_spectrum(r[j], it[j], alpha, dt, nt)).sum(0)
            h += att_time(acc, nt)
        hit[:] = m.any()
        for j in np.flatnonzero(amb):
            cand = {int(np.floor(q[j])), int(np.floor(q[j]) + 1)} if tie[j] else {int(it[j])}
            for c in cand:
                if 0 <= c < nt:
                    # cover either choice (and absence, when optional)
                    x = att_time(att_spectrum(r[j:j + 1], np.array([c]), alpha, dt, nt)[0], nt)
                    slack += np.abs(ai[j] * x)
                    hit[:] = True
                else:
                    maybe += 1
    else:
        m = cert & inw
        mag = np.zeros(nt)
        np.add.at(mag, it[m].astype(int), np.abs(ai[m]))
        np.add.at(h, it[m].astype(int), ai[m])
        hit[it[m].astype(int)] = True
        for j in np.flatnonzero(amb):
            cand = {int(np.floor(q[j])), int(np.floor(q[j]) + 1)} if tie[j] else {int(it[j])}
            for c in cand:
                if 0 <= c < nt:
                    slack[c] += abs(ai[j]); hit[c] = True
                else:
                    maybe += 1
    return Col(h, slack, certain_out, maybe, ai.size, scale, hit, None if mag is None else mag + slack)

def cmp_col(got, col, rtol=1e-9):
    """None if got is acceptable, else a message"""
    got = np.asarray(got)
    if got.shape != col.h.shape:
        return "shape %s, expected %s" % (got.shape, col.h.shape)
    if not np.all(np.isfinite(got)):
        if np.all(np.isfinite(col.h)) and np.all(np.isfinite(col.slack)):
            return "non-finite samples at %s" % np.flatnonzero(~np.isfinite(got))[:5]
        ok = ~np.isfinite(col.h) | ~np.isfinite(col.slack)
        if np.any(~np.isfinite(got) & ~ok):
            return "non-finite samples at %s" % np.flatnonzero(~np.isfinite(got) & ~ok)[:5]
    with np.errstate(invalid="ignore"):
        err = np.abs(got - col.h) - col.slack
    tol = rtol * max(col.scale, 1e-300)
    if col.mag is not None:     # relative to what the sample is made of, and rounding of the whole
        tol = np.minimum(tol, rtol * np.where(np.isfinite(col.mag), col.mag, np.inf) + 1e-13 * max(col.scale, 1e-300))
    tol = np.broadcast_to(tol, err.shape)
    m = np.isfinite(col.h) & np.isfinite(col.slack)
    bad = np.flatnonzero(m & ~(err <= tol))
    if bad.size:
        k = bad[np.argmax(err[bad])]
        return "sample %d: got %.12g expected %.12g (+-%.3g), %d samples differ" % (k, got[k], col.h[k], col.slack[k] + tol[k], bad.size)
    return None

# ------------------------------------------------------------------ annular array
def annular_laws(P):
    G = np.asarray(P["G"], float).ravel()
    nr = G.size
    ne = (nr + 1) // 2
    rad = np.zeros(ne)
    for k in range(1, ne):
        rad[k] = (G[2 * k] + G[2 * k - 1]) / 2
    rmax = rad[ne - 1]
    cp = P["m"][1]
    met, f = P["foc"]
    f = np.asarray(f, float).ravel()
    if met == "ud":
        fd = f
    elif met in ("off",):
        fd = np.zeros(ne)
    else:
        fd = (np.sqrt(rmax ** 2 + f[0] ** 2) - np.sqrt(rad ** 2 + f[0] ** 2)) * 1e3 / cp
    amet, av, ap = P["apod"]
    if amet == "off":
        w = np.ones(ne)
    elif amet == "ud":
        w = np.asarray(av, float).ravel()
    else:
        w = apod_law(amet, rad, rmax, ap)
    return fd, w

def annular_column(P, n):
    dx, dy, dt, nt = P["s"]
    nt = int(nt)
    v, cp, alpha = P["m"]
    G = np.asarray(P["G"], float).ravel()
    fd, w = annular_laws(P)
    discs = []
    for i, R in enumerate(G):
        if i == 0 and R <= EPS:
            discs.append(Col(np.zeros(nt), np.zeros(nt), 0, 0, 0, 0.0, np.zeros(nt, bool)))
            continue
        Q = dict(P, fn="dreamcirc", geom=[R])
        discs.append(column(Q, n))
    h = np.zeros(nt); slack = np.zeros(nt); hit = np.zeros(nt, bool)
    scale = sum(d.scale for d in discs) * max(1.0, np.max(np.abs(w)))
    for k in range((G.size + 1) // 2):
        if k == 0:
            ring, sl, ht = discs[0].h, discs[0].slack, discs[0].hit
        else:
            ring = discs[2 * k].h - discs[2 * k - 1].h
            sl = discs[2 * k].slack + discs[2 * k - 1].slack
            ht = discs[2 * k].hit | discs[2 * k - 1].hit
        qd = fd[k] / dt
        tie = abs(abs(qd - math.floor(qd)) - 0.5) < TIE
        opts = [int(np.rint(qd))] if not tie else [math.floor(qd), math.floor(qd) + 1]
        def shift(x, s):
            y = np.zeros(nt, x.dtype)
            if s >= nt or -s >= nt:
                return y
            if s >= 0: y[s:] = x[:nt - s]
            else: y[:nt + s] = x[-s:]
            return y
        if len(opts) == 1:
            h += w[k] * shift(ring, opts[0]); slack += abs(w[k]) * shift(sl, opts[0]); hit |= shift(ht, opts[0])
        else:
            for s in opts:
                slack += abs(w[k]) * (np.abs(shift(ring, s)) + shift(sl, s)); hit |= shift(ht, s)
    return Col(h, slack, sum(d.certain_out for d in discs), sum(d.maybe_out for d in discs), sum(d.n for d in discs), scale, hit)

def expected_columns(P, cols=None):
    f = annular_column if P["fn"] == "dream_arr_annu" else column
    return [f(P, n) for n in (range(len(P["Ro"])) if cols is None else cols)]
