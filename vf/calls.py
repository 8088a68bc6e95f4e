"""Random valid calls of every public function, with the description of what their batch axis is."""
import numpy as np
from . import gen, dasm, harness
from .gen import U, row, F

ANALYTIC = ["rect_sir", "circ_sir", "scirc_sir"]
CONV = ["conv_p", "fftconv_p", "fftconv_ola", "sum_fftconv"]
INPLACE = ["add_p", "copy_p"]
DAS = ["das:%s:%s" % (m, p) for m in dasm.METHODS for p in "df"]
EVERY = gen.ALLSIR + ANALYTIC + ["dream_att", "dream_apodwin"] + CONV + INPLACE + DAS
PYSIR = set(gen.ALLSIR)
HELPERS = ["arr_focus_delays", "h2o_soundspeed"]      # Octave scripts

def targets(fns):
    t = []
    for f in fns:
        b = f.split(":")[0]
        if f in HELPERS:
            continue
        t.append("oct_" + b)
        if f in PYSIR or b == "fftconv_p":
            t.append("py_" + b)
        if b == "das":
            t += ["py_das", "py_das_f"]
    return list(dict.fromkeys(t))

def agree(c, p, q):
    """bit for bit; results of transforms (convolution, lossy media) up to rounding, as measured plans change it"""
    if harness.same(p, q):
        return True
    if not (c.exact is False or c.lossy) or np.shape(p) != np.shape(q):
        return False
    p, q = np.asarray(p, float), np.asarray(q, float)
    sc = max(float(np.nanmax(np.abs(p))) if p.size and np.isfinite(p).any() else 0.0, c.scale, 1e-300)
    return bool(np.all((np.abs(p - q) <= 1e-10 * sc) | (~np.isfinite(p) & ~np.isfinite(q))))

class Call:
    """fn, oct args, py (mod, fn, args) or None; rows/cols: argument positions sliced per observation; dl: delay position"""
    def __init__(self, fn, oct_args, py=None, rows=(), cols=(), dl=None, n=1, nout=1, info=None, exact=True, lossy=False):
        self.lossy, self.scale = lossy, 0.0
        self.fn, self.oct_args, self.py, self.rows, self.cols, self.dl, self.n, self.nout, self.info, self.exact = fn, oct_args, py, rows, cols, dl, n, nout, info, exact
    def case(self, lang, env=None, idx=None, **kw):
        args = list(self.oct_args if lang == "oct" else self.py[2])
        if idx is not None:
            idx = np.asarray(idx)
            for p in self.rows:
                args[p] = F(args[p][idx, :])
            for p in self.cols:
                args[p] = F(args[p][:, idx])
            if self.dl is not None and np.size(args[self.dl]) > 1:
                d = args[self.dl].ravel()[idx]
                args[self.dl] = F(d.reshape(-1, 1) if args[self.dl].shape[1] == 1 else d.reshape(1, -1))
        if lang == "oct":
            return dict(fn=self.fn.split(":")[0], args=args, env=env, nout=kw.pop("nout", self.nout), **kw)
        return dict(mod=self.py[0], fn=self.py[1], args=args, env=env, **kw)
    def langs(self):
        return ["oct"] + (["py"] if self.py else [])
    def brief(self):
        return gen.brief(dict(fn=self.fn, args=self.oct_args))

def sir(rng, fn, no=None, **kw):
    if "alpha" not in kw:
        kw["alpha"] = 0.0 if rng.random() < .6 else U(rng, .1, 5)
    if "fit" not in kw:
        kw["fit"] = bool(rng.random() < .6)
    if "nt" not in kw and kw["alpha"] > 0 and not kw["fit"]:
        kw["nt"] = int(rng.choice([1, 5, 16, 33, 64, 100]))
    P = gen.gen_sir(rng, fn, no=no, err="ignore" if not kw["fit"] else str(rng.choice(["stop", "warn", "ignore"])), **kw)
    a = gen.sir_args(P) + [P["err"]]
    return Call(fn, a, (fn, fn, a), rows=(0,), dl=5 if fn in gen.ARR3 else 3 if fn == "dream_arr_annu" else 3, n=len(P["Ro"]), nout=2, info=P, lossy=P["m"][2] > 0)

def delay_pos(fn):
    return {"dream_arr_rect": 4, "dream_arr_circ": 4, "dream_arr_cylind": 4, "dream_arr_annu": 3}.get(fn, 3)

def analytic(rng, fn, no=None):
    no = no or gen.batch(rng, [1, 2, 3, 5, 8, 9, 16, 17, 33])
    nt = int(rng.choice([1, 5, 16, 64, 200]))
    dt, cp, v = U(rng, .01, .1), U(rng, 300, 6500), U(rng, .2, 4)
    a, b = U(rng, .5, 20), U(rng, .5, 20)
    Ro = np.column_stack([rng.uniform(-1.5, 1.5, no) * a, rng.uniform(-1.5, 1.5, no) * b, rng.uniform(.5, 60, no)])
    for i in range(no):
        t = rng.random()
        if t < .05: Ro[i, :2] = 0.0
        elif t < .1: Ro[i, int(rng.integers(2))] = 0.0
        elif t < .13: Ro[i] = Ro[0]
        elif t < .16: Ro[i, 2] *= 10
    if rng.random() < .1: Ro = Ro[np.sort(rng.integers(0, no, no))]
    t0 = np.sqrt((Ro ** 2).sum(1)) * 1e3 / cp
    ppd = no > 1 and rng.random() < .5
    d = t0 - nt * dt * rng.uniform(0, .8, no) if ppd else np.array([t0.min() - nt * dt * U(rng, 0, .5)])
    args = [F(Ro), row(a, b) if fn == "rect_sir" else row(a / 2), row(dt, nt), d.reshape(-1, 1) if rng.random() < .5 else d.reshape(1, -1), row(v, cp)]
    if fn == "scirc_sir":
        args.append(row(int(rng.choice([1, 2, 5, 20, 101, 300]))))
    return Call(fn, args, None, rows=(0,), dl=3, n=no)

def att(rng, no=None):
    no = no or gen.batch(rng, [1, 2, 3, 5, 8, 9, 17])
    nt = int(rng.choice([1, 2, 5, 16, 31, 64, 100]))
    dt, cp, al = U(rng, .005, .1), U(rng, 300, 6000), U(rng, 0, 5)
    Ro = rng.uniform(-30, 30, (no, 3))
    if rng.random() < .1: Ro = Ro[np.sort(rng.integers(0, no, no))]
    t0 = np.sqrt((Ro ** 2).sum(1)) * 1e3 / cp
    ppd = no > 1 and rng.random() < .5
    d = t0 - nt * dt * rng.uniform(0, .8, no) if ppd else np.array([t0.min() - nt * dt * U(rng, 0, .5)])
    return Call("dream_att", [F(Ro), row(dt, nt), d.reshape(-1, 1), row(cp, al)], None, rows=(0,), dl=2, n=no, lossy=True)

def data(rng, *shape):
    x = rng.standard_normal(shape)
    if rng.random() < .4:
        x = np.rint(x * 8)
    elif rng.random() < .2:
        x = x * 10.0 ** rng.uniform(-12, 12)
    return F(x)

def conv(rng, fn, n=None):
    M, K = int(rng.choice([1, 2, 3, 7, 16, 50, 129])), int(rng.choice([1, 2, 3, 8, 15, 40, 130]))
    if rng.random() < .08:
        M = int(rng.choice([512, 1000, 1025, 2500]))
    if rng.random() < .06:
        K = int(rng.choice([256, 513, 1021]))
    n = n or gen.batch(rng, [1, 2, 3, 5, 8, 9, 16, 17, 30])
    if n > 60: M, K = min(M, 50), min(K, 40)
    if fn == "sum_fftconv":
        L = gen.batch(rng, [2, 3, 4, 7], .04) if n < 10 else int(rng.choice([2, 3, 4, 7]))
        # outputs indexed by the second dimension of H; kept 3-D
        return Call(fn, [data(rng, M, n, L), data(rng, K, L)], None, n=n, exact=False)
    A = data(rng, M, n)
    if M == 1 and n == 1:
        A = data(rng, 5, 1)
    vec = rng.random() < .4 or K == 1
    B = data(rng, K, 1) if vec else data(rng, K, n)
    if vec and rng.random() < .3:
        B = F(B.T.copy())
    args = [A, B]
    if fn == "fftconv_ola":
        args.append(row(min(A.shape[0], int(rng.choice([1, 2, 4, 7, 16, 64])))))
    py = ("fftconv_p", "fftconv_p", [A, B]) if fn == "fftconv_p" else None
    cols = (0,) if vec or B.shape[1] != n or min(B.shape) == 1 else (0, 1)
    return Call(fn, args, py, cols=cols, n=n, exact=fn == "conv_p")

def inplace(rng, fn):
    M, N = int(rng.choice([2, 5, 17, 40])), int(rng.choice([2, 5, 9, 17, 40]))
    r1 = int(rng.integers(1, M + 1)); r2 = int(rng.integers(r1, M + 1))
    c1 = int(rng.integers(1, N + 1)); c2 = int(rng.integers(c1, N + 1))
    return Call(fn, [data(rng, M, N), row(r1, r2), row(c1, c2), data(rng, r2 - r1 + 1, c2 - c1 + 1)], None, nout=0)

def das(rng, fn, no=None, fit=None, long=False):
    _, m, p = fn.split(":")
    P = dasm.gen_das(rng, m, p, no=no, fit=fit, err="ignore", long=long)
    o = dasm.oct_das(P); y = dasm.py_das(P)
    return Call(fn, o["args"], (y["mod"], y["fn"], y["args"]), rows=(3,), dl=5, n=len(P["Ro"]), nout=2, info={k: v for k, v in P.items() if k != "Y"})

def apodwin(rng):
    m = str(rng.choice(gen.APODS))
    n = int(rng.choice([1, 2, 3, 8, 33, 100]))
    return Call("dream_apodwin", [m, data(rng, n, 1) if m == "ud" else row(n), row(U(rng, .1, 3))], None)

def helper(rng, fn):
    if fn == "arr_focus_delays":
        n = int(rng.choice([1, 2, 5, 16]))
        g = np.sort(rng.uniform(-8, 8, n)).reshape(-1, 1)
        return Call(fn, [F(g if rng.random() < .5 else g.T), row(U(rng, 300, 6500)), row(U(rng, 5, 80) * (1 if rng.random() < .8 else -1)), row(U(rng, -40, 40))], None, exact=False)
    T = rng.uniform(0, 95, (1, int(rng.choice([1, 1, 3, 8]))))
    return Call(fn, [F(T), row(U(rng, .5, 300)), str(rng.choice(["bar", "atm", "at"])), row(U(rng, 0, 40))][:int(rng.choice([1, 3, 4]))], None, exact=False)

def make(rng, fn, no=None, **kw):
    if fn in HELPERS: return helper(rng, fn)
    if fn in PYSIR:
        c = sir(rng, fn, no=no, **kw)
        c.dl = delay_pos(fn)
        return c
    if fn in ANALYTIC: return analytic(rng, fn, no)
    if fn == "dream_att": return att(rng, no)
    if fn in CONV: return conv(rng, fn, no)
    if fn in INPLACE: return inplace(rng, fn)
    if fn == "dream_apodwin": return apodwin(rng)
    return das(rng, fn, no, **kw)
