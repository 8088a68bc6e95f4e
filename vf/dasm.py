"""Delay-and-sum: generator, argument lists and reference model."""
import numpy as np
from . import gen
from .gen import U, row, F

METHODS = ["saft", "tfm", "rca_coltx", "rca_rowtx"]

def line(rng, n, pitch, axis, z=False):
    G = np.zeros((n, 3))
    G[:, axis] = (np.arange(n) - (n - 1) / 2) * pitch + U(rng, -1, 1) * pitch * (rng.random() < .4)
    if rng.random() < .25:
        G[:, axis] = np.sort(G[:, axis] + rng.uniform(-.3, .3, n) * pitch)
    if z:
        G[:, 2] = rng.uniform(-.5, .5, n)
    return G

def gen_das(rng, method=None, prec=None, no=None, fit=None, err=None, nt_el=None, nr_el=None, long=False):
    """long: A-scans of tens of thousands of samples, whose index shows the precision of every number"""
    if long:
        no, fit, nt_el, nr_el = int(no or rng.choice([120, 300])), True, int(rng.choice([1, 2])), int(rng.choice([1, 2]))
    method = method or str(rng.choice(METHODS))
    prec = prec or str(rng.choice(["d", "f"]))
    no = int(no or rng.choice([1, 2, 3, 5, 8, 9, 17, 40, 65, 100, 130]))
    fit = bool(rng.random() < .6) if fit is None else fit
    nt = int(nt_el or rng.choice([1, 2, 3, 4, 5, 8, 12]))
    nr = int(nr_el or rng.choice([1, 2, 3, 4, 6, 7, 11]))
    if nt_el is None and nr_el is None and rng.random() < .1:      # as many elements as a real array has
        nt, nr = int(rng.choice([16, 33, 64, 128])), int(rng.choice([1, 8, 33, 64]))
        if method != "saft":
            no = min(no, 24)
        if rng.random() < .3:
            nt, nr = nr, nt
    cp = 1500.0 if rng.random() < .3 else U(rng, 300, 6500)
    pitch = U(rng, .3, 2)
    if method == "saft":
        Gt = line(rng, nt, pitch, int(rng.integers(2)), rng.random() < .3)
        if rng.random() < .3:
            Gt = rng.uniform(-5, 5, (nt, 3)); Gt[:, 2] *= .1
        Gr = np.zeros((0, 3))
    elif method == "tfm":
        Gt = line(rng, nt, pitch, int(rng.integers(2)), rng.random() < .3)
        if rng.random() < .4:
            Gr = line(rng, nr, pitch * U(rng, .5, 2), int(rng.integers(2)), rng.random() < .3)
        elif rng.random() < .5 and nt <= 200:
            Gr = Gt.copy()
        else:
            Gr = rng.uniform(-5, 5, (nr, 3)); Gr[:, 2] *= .1
    else:
        z = rng.random() < .3
        Gt = line(rng, nt, pitch, 0, z)
        Gr = line(rng, nr, pitch * U(rng, .5, 2), 1, z)
    if method in ("saft", "tfm") and rng.random() < .15:      # elements in any order, or one twice
        Gt = Gt[rng.permutation(len(Gt))]
        if rng.random() < .5: Gt[-1] = Gt[0]
        if len(Gr): Gr = Gr[::-1].copy()
    if method in ("saft", "tfm"):
        Gt = gen.stacked(rng, Gt)
        if len(Gr): Gr = gen.stacked(rng, Gr)
    ap = max(3.0, float(np.abs(Gt).max()), float(np.abs(Gr).max()) if Gr.size else 0)
    Ro = np.column_stack([rng.uniform(-2, 2, no) * ap, rng.uniform(-2, 2, no) * ap, rng.uniform(1, 30, no)])
    if no > 1 and rng.random() < .1: Ro = Ro[np.sort(rng.integers(0, no, no))]
    if rng.random() < .3:    # near the aperture, inside its projection
        Ro[:, :2] *= .25
    for i in range(no):      # exactly above elements, on stripe ends
        t = rng.random()
        if t < .08: Ro[i, 0] = Gt[int(rng.integers(len(Gt))), 0]
        elif t < .16: Ro[i, 1] = (Gr if Gr.size else Gt)[-1, 1]
        elif t < .2: Ro[i, 2] *= -1
        elif t < .23: Ro[i] = Gt[int(rng.integers(len(Gt)))]      # on an element
        elif t < .26: Ro[i] = Ro[int(rng.integers(i + 1))]
        elif t < .29: Ro[i] *= U(rng, 3, 20)
        elif t < .32: Ro[i, 2] = 0.0
    P = dict(fn="das", method=method, prec=prec, Gt=Gt, Gr=Gr, Ro=Ro, cp=cp, dt=1.0, delay=np.zeros(1), alen=1, err=err or "ignore")
    T = times(P).reshape(no, -1)      # us, no delay
    lo, hi = T.min(1), T.max(1)
    ppd = rng.random() < .4 and 1 < no < 2500
    want = int(rng.choice([20, 60, 150, 400] if rng.random() < .93 or nt * nr > 600 else [1500, 5000]))
    if long: want = int(rng.choice([40000, 100000]))
    if fit:
        if ppd:
            k = 2 if method == "saft" else 1
            d = -(lo - .0) / k + rng.uniform(0, .3, no) * (hi - lo + 1) / k
            span = float((hi + k * d).max())
            pos = rng.random() < .5
        else:
            d = np.array([0.0 if rng.random() < .4 else U(rng, 0, .5) * float(hi.max())])
            if rng.random() < .3:
                d = np.array([-float(lo.min()) * U(rng, .2, .9) / (2 if method == "saft" else 1)])
            span = float(hi.max() + (2 if method == "saft" else 1) * d[0])
        span = max(span, 1e-3)
        dt = span / want * U(rng, 1.01, 1.2)
        if prec == "f":      # single precision must be able to tell the samples apart
            dt = max(dt, 2.0 ** -18 * float(hi.max()))
        alen = int(np.ceil(span / dt)) + int(rng.integers(1, 6))
    else:
        d = gen.special(rng, -lo * U(rng, 0, 1) + rng.uniform(-.5, .5, no) * (hi - lo)) if ppd else np.array([U(rng, -1.2, .5) * float(np.median(lo))])
        alen = int(rng.choice([1, 2, 5, 17, 50, 128]))
        dt = (float(np.median(hi)) + 1e-3) / max(alen, 4) * U(rng, .3, 1.5)
    if prec == "f": dt, cp = float(np.float32(dt)), float(np.float32(cp))
    P["dt"], P["cp"], P["alen"] = dt, cp, alen
    P["delay"] = d.reshape(-1, 1) if rng.random() < .5 else d.reshape(1, -1)
    if prec == "f":
        for k in ("Gt", "Gr", "Ro", "delay"):
            P[k] = P[k].astype(np.float32)
    P["Y"] = data(P, rng)
    return P

def ncols(P):
    return len(P["Gt"]) * (len(P["Gr"]) if P["method"] != "saft" else 1)

def data(P, rng):
    Y = rng.standard_normal((P["alen"], ncols(P)))
    if rng.random() < .3:
        Y = np.rint(Y * 8)
    elif rng.random() < .25:
        Y = Y * 10.0 ** rng.uniform(-20, 20) if P["prec"] == "d" else Y * 10.0 ** rng.uniform(-8, 8)
    elif rng.random() < .1:      # a few echoes in silence
        Y[rng.random(Y.shape) < .9] = 0.0
    return np.asfortranarray(Y.astype(np.float32 if P["prec"] == "f" else np.float64))

def times(P, legs=False):
    """round-trip times [us] without delay: (no, ncolumns) in the data's column order"""
    Gt, Gr, Ro = (np.asarray(P[k], float) for k in ("Gt", "Gr", "Ro"))
    c = P["cp"] / 1000.0
    D = lambda A: np.sqrt(((A[None] - Ro[:, None]) ** 2).sum(2))
    m = P["method"]
    if m == "saft":
        return 2 * D(Gt) / c
    if m == "tfm":
        t, r = D(Gt) / c, D(Gr) / c
        return (t[:, :, None] + r[:, None, :]).reshape(len(Ro), -1)
    # stripes: columns run along y between the first and last row, rows along x between the first and last column
    def out(x, a, b):
        return np.where(x < a, a - x, np.where(x > b, x - b, 0.0))
    ey = out(Ro[:, 1], Gr[0, 1], Gr[-1, 1])
    ex = out(Ro[:, 0], Gt[0, 0], Gt[-1, 0])
    tc = np.sqrt((Gt[None, :, 0] - Ro[:, None, 0]) ** 2 + ey[:, None] ** 2 + (Gt[None, :, 2] - Ro[:, None, 2]) ** 2) / c
    tr = np.sqrt((Gr[None, :, 1] - Ro[:, None, 1]) ** 2 + ex[:, None] ** 2 + (Gr[None, :, 2] - Ro[:, None, 2]) ** 2) / c
    if m == "rca_coltx":
        return (tc[:, :, None] + tr[:, None, :]).reshape(len(Ro), -1)
    return (tr[:, :, None] + tc[:, None, :]).reshape(len(Ro), -1)

class Exp: pass

def expected(P):
    """per pixel: value, envelope, number of pairs certainly/possibly outside"""
    T = times(P)
    d = np.asarray(P["delay"], float).ravel()
    d = np.full(len(T), d[0]) if d.size == 1 else d
    k = 2 if P["method"] == "saft" else 1
    q = (T + k * d[:, None]) / P["dt"]
    eps = 2.0 ** -23 if P["prec"] == "f" else 2.0 ** -52
    tol = eps * 12 * (np.abs(T) + np.abs(k * d[:, None])) / P["dt"] + 1e-12
    i0, i1 = np.trunc(q - tol).astype(np.int64), np.trunc(q + tol).astype(np.int64)
    Y = np.asarray(P["Y"], float)
    n = P["alen"]
    col = np.arange(T.shape[1])[None, :]
    def take(i):
        ok = (i >= 0) & (i < n)
        return np.where(ok, Y[np.clip(i, 0, n - 1), col], 0.0), ok
    a, oka = take(i0)
    b, okb = take(i1)
    E = Exp()
    E.h = a.sum(1)
    E.slack = np.abs(a - b).sum(1) + eps * 4 * T.shape[1] * np.abs(np.where(np.abs(a) > np.abs(b), a, b)).sum(1) + 1e-300
    w = i1 - i0 > 1     # anything in between
    if w.any():
        E.slack = E.slack + 2 * (w * np.abs(Y).max(0)[None, :]).sum(1)
    E.certain_out = ((~oka) & (~okb)).sum(1)
    E.maybe_out = (oka != okb).sum(1)
    E.inside = (oka & okb).sum()
    E.amb = int((i0 != i1).sum())
    E.pairs = T.size
    return E

def dtp(P): return np.float32 if P["prec"] == "f" else np.float64

def py_das(P, env=None, err=None, **kw):
    t = dtp(P)
    e = err or P["err"]
    a = [F(P["Y"]), F(P["Gt"].astype(t)), F(P["Gr"].astype(t)), F(P["Ro"].astype(t)), float(P["dt"]), F(P["delay"].astype(t)), float(P["cp"]), P.get("mstr", P["method"])]
    if e != "<default>":
        a.append(e)
    return dict(mod="das_f" if P["prec"] == "f" else "das", fn="das", args=a, env=env, **kw)

def oct_das(P, env=None, err=None, nout=2, **kw):
    c = py_das(P, env, err)
    t = dtp(P)
    a = list(c["args"])
    a[4] = np.array([[P["dt"]]], t); a[6] = np.array([[P["cp"]]], t)
    return dict(fn="das", args=a, env=env, nout=nout, **kw)

def cmp(out, E, alen=None):
    out = np.asarray(out, float).ravel()
    if out.size != E.h.size:
        return "size %d, expected %d" % (out.size, E.h.size)
    bad = np.flatnonzero(~(np.abs(out - E.h) <= E.slack))
    if bad.size:
        k = bad[0]
        return "pixel %d: got %.9g expected %.9g (+-%.3g), %d of %d pixels differ" % (k, out[k], E.h[k], E.slack[k], bad.size, out.size)
    return None
