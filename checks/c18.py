"""The apodization function, the focusing-delay helper and the water sound-speed helper against their definitions, and against the array functions."""
import numpy as np
from vf import gen, oracle, work, harness
from vf.gen import row, F, U
from checks import sirval

RULE = ("one evaluation = one helper call compared element by element with its definition, or one array call with helper-made weights or delays compared with the built-in method; "
        "non-trivial when the result is not constant; distinct by function and arguments")

def win_def(met, n, par, weights):
    if met == "off": return np.ones(n)
    if met == "ud": return np.asarray(weights, float).ravel()
    xs = 2 * (0.5 - np.arange(n) / n)
    return oracle.apod_law(met, np.abs(xs), 1.0, par)

def foc_def(g, cp, foc, ang):
    g = np.asarray(g, float).ravel()
    xp, zp = foc * np.tan(np.radians(ang)), foc
    r = np.hypot(xp - g, zp)
    d = (r.max() - r) * 1000.0 / cp
    return np.abs(d - d.max()) if foc < 0 else d

UNIT = {"pa": 10.197e-6, "bar": 1.0197, "at": 1.0, "atm": 1.0332, "mmhg": 1.3595e-3, "psi": 70.307e-3}
# Del Grosso 1974: coefficient, power of temperature, salinity, pressure [kg/cm^2]
DG = [(1402.392, 0, 0, 0), (0.501109398873e1, 1, 0, 0), (-0.550946843172e-1, 2, 0, 0), (0.221535969240e-3, 3, 0, 0),
      (0.132952290781e1, 0, 1, 0), (0.128955756844e-3, 0, 2, 0), (0.156059257041, 0, 0, 1), (0.244998688441e-4, 0, 0, 2), (-0.883392332513e-8, 0, 0, 3),
      (-0.127562783426e-1, 1, 1, 0), (0.635191613389e-2, 1, 0, 1), (0.265484716608e-7, 2, 0, 2), (-0.159349479045e-5, 1, 0, 2), (0.522116437235e-9, 1, 0, 3),
      (-0.438031096213e-6, 3, 0, 1), (-0.161674495909e-8, 0, 2, 2), (0.968403156410e-4, 2, 1, 0), (0.485639620015e-5, 1, 2, 1), (-0.340597039004e-3, 1, 1, 1)]

def h2o(T, P, S):
    return sum(c * T ** i * S ** j * P ** k for c, i, j, k in DG)
def h2o_slack(T, P, S):
    """what rounding of the unit table may change (5e-5 of the pressure terms), and rounding"""
    return 5e-5 * sum(abs(c * T ** i * S ** j * k * P ** k) for c, i, j, k in DG if k) + 1e-9 * sum(abs(c * T ** i * S ** j * P ** k) for c, i, j, k in DG)

def run():
    ck = harness.Check("C18", RULE, ["pressure units converted with five-digit constants, as documented", "line arrays symmetric about the origin for the equivalence of helper and built-in focusing"])
    R = work.Runner("rel", ["oct_dream_apodwin", "oct_dream_arr_rect", "py_dream_arr_rect", "oct_dream_arr_circ", "oct_dream_arr_cylind"])
    m = 20 if ck.thorough else 5
    C = []      # (label, lang, case, judge)
    def add(label, case, judge, lang="oct"):
        C.append((label, lang, case, judge))
    # -- the window function
    for met in gen.APODS:
        ns = list(range(1, 34)) + [50, 64, 99, 100, 101, 257, 1000, 5000]
        for n in ns if ck.thorough else ns:
            for q in range(m if n < 40 else 1):
                rng = ck.subrng("win", met, n, q)
                par = float(rng.choice([0.0, .1, .5, 1.0, 2.5, 10.0, 35.0, 200.0, -1.0, U(rng, 0, 5), U(rng, 0, 5)]))
                w = rng.standard_normal(n)
                a = [met, F(w.reshape(-1, 1) if rng.random() < .5 else w.reshape(1, -1)) if met == "ud" else row(float(n)), row(par)]
                E = win_def(met, n, par, w)
                def judge(r, E=E, met=met, n=n, par=par):
                    y = np.asarray(r.out)
                    if y.shape != (n, 1) and y.shape != (n,): return "shape", "%s, expected %d weights" % (y.shape, n)
                    y = y.ravel()
                    tol = 1e-13 * (1 + np.abs(E).max() + abs(par)) if met not in ("off", "ud") else 0.0
                    if met == "gauss": tol = 1e-13 * np.abs(E) * (1 + abs(par)) + 1e-300
                    if not np.all(np.isfinite(y)): return "value", "non-finite weight"
                    if np.any(np.abs(y - E) > tol):
                        k = int(np.argmax(np.abs(y - E))); return "value", "weight %d of %d (%s, %g): %.17g, expected %.17g" % (k, n, met, par, y[k], E[k])
                add("dream_apodwin " + met, dict(fn="dream_apodwin", args=a, env=None), judge)
    # -- the focusing delays and the array functions
    nf = 2000 if ck.thorough else 600
    foc = []
    for i in range(nf):
        rng = ck.subrng("foc", i)
        n = int(rng.choice([1, 2, 3, 4, 7, 8, 16, 33]))
        sym = i % 2 == 0
        g = (np.arange(n) - (n - 1) / 2) * U(rng, .3, 2)
        if not sym: g = rng.uniform(-10, 10, n)
        f = U(rng, 2, 100) * (1 if sym or rng.random() < .6 else -1)
        ang = 0.0 if sym else U(rng, -60, 60)
        cp = U(rng, 300, 6500)
        E = foc_def(g, cp, f, ang)
        def judge(r, E=E, n=n, f=f, ang=ang, g=g, cp=cp):
            y = np.asarray(r.out)
            if y.size != n: return "shape", "%s, expected %d delays" % (y.shape, n)
            d = np.abs(y.ravel() - E)
            if not np.all(d <= 1e-11 * (1 + np.abs(E).max() + abs(f) * 1000 / cp)): return "value", "delay %d: %.17g, expected %.17g" % (int(np.argmax(d)), y.ravel()[int(np.argmax(d))], E[int(np.argmax(d))])
            if f > 0:   # what they are for: all elements' waves meet at the focus
                t = y.ravel() + np.hypot(f * np.tan(np.radians(ang)) - g, f) * 1000.0 / cp
                if np.ptp(t) > 1e-9 * (1 + np.abs(t).max()): return "focus", "the waves reach the focus %.3g us apart" % np.ptp(t)
        add("arr_focus_delays", dict(fn="arr_focus_delays", args=[F(g.reshape(-1, 1) if rng.random() < .5 else g.reshape(1, -1)), row(cp), row(f), row(ang)], env=None), judge)
        if sym:
            foc.append((len(C) - 1, g, f, cp, i))
    # -- the sound speed
    nh = 4000 if ck.thorough else 800
    for i in range(nh):
        rng = ck.subrng("h2o", i)
        n = int(rng.choice([1, 1, 3, 10]))
        # temperatures, pressures and salinities: numbers or arrays of one shape
        shp = [(1, n), (n, 1), (n, 2)][int(rng.choice([0, 0, 1, 2]))]
        Tf = rng.random() < .8
        T = rng.uniform(0, 40, shp) if Tf else rng.uniform(0, 40, (1, 1)); unit = str(rng.choice(list(UNIT)))
        S = rng.uniform(0, 45, shp) if rng.random() < .4 else rng.uniform(0, 45, (1, 1))
        Pk = rng.uniform(0, 1000, shp) if rng.random() < .4 else rng.uniform(0, 1000, (1, 1))
        P = Pk / UNIT[unit]
        nm = {"pa": "Pa", "mmhg": "mmHg"}.get(unit, unit)
        nm = nm if rng.random() < .7 else nm.upper() if rng.random() < .5 else unit
        k = i % 4
        a = [F(T), F(P), nm, F(S)]
        if k == 0: a = a[:1]; P, S, unit = 101325.0, 0.0, "pa"
        elif k == 1: a = a[:2]; S, P, unit = 0.0, Pk / UNIT["pa"], "pa"; a[1] = F(P)
        elif k == 2: a = a[:3]; S = 0.0
        E, sl = h2o(T, P * UNIT[unit], S), h2o_slack(T, P * UNIT[unit], S)
        def judge(r, E=E, sl=sl, a=a):
            y = np.asarray(r.out)
            if y.size != E.size or y.ndim == 2 and y.shape != E.shape: return "shape", "%s values, expected %s" % (y.shape, E.shape)
            y = y.reshape(E.shape)
            if not np.all(np.abs(y - E) <= sl): return "value", "%s: %.12g, expected %.12g" % (gen.brief(a), y.ravel()[np.argmax(np.abs(y - E))], E.ravel()[np.argmax(np.abs(y - E))])
        add("h2o_soundspeed %d arguments" % len(a), dict(fn="h2o_soundspeed", args=a, env=None), judge)
    res = R.run("oct", [c[2] for c in C], par=8)
    for (label, lang, case, judge), r in zip(C, res):
        settle(ck, label, lang, case, judge, r)
    # -- helper-made delays and weights in the array functions
    D = []
    rr = {}
    for k, g, f, cp, i in foc:
        if res[k].kind != "ok" or np.asarray(res[k].out).size != len(g): continue
        rng = ck.subrng("use", i)
        ax = str(rng.choice(["x", "y"])) if i % 4 == 0 else "x"
        P = gen.gen_sir(rng, "dream_arr_rect", foc=ax, apod="off", steer="off", ne=len(g), fit=False, err="ignore", nt=200)
        z = np.zeros(len(g))
        P["G"] = np.column_stack([g, z, z] if ax == "x" else [z, g, z])
        P["m"] = (P["m"][0], cp, 0.0)
        P["foc"] = (ax, row(f))
        center(P)
        Q = dict(P, foc=("ud", np.asarray(res[k].out, float).reshape(-1, 1)))
        D.append(("focus", P, Q))
    wins = [m for m in gen.APODS if m not in ("off", "ud")]
    W = []
    for i in range(2000 if ck.thorough else 500):
        rng = ck.subrng("win-use", i)
        met = wins[i % len(wins)]; n = int(rng.choice([2, 3, 4, 5, 8, 15, 16])); par = U(rng, .1, 3)
        W.append((rng, met, n, par, dict(fn="dream_apodwin", args=[met, row(n), row(par)], env=None)))
    wr = R.run("oct", [w[4] for w in W], par=8)
    for (rng, met, n, par, _), r in zip(W, wr):
        if r.kind != "ok" or np.asarray(r.out).size != n:
            continue    # reported above for some n
        w = np.asarray(r.out, float).ravel()
        fn = str(rng.choice(gen.ARR3))
        P = gen.gen_sir(rng, fn, foc="off", apod=met, steer="off", ne=n + 1, fit=False, err="ignore", nt=200)
        xs = 2 * (0.5 - np.arange(n) / n); A = U(rng, .5, 8)
        g = np.concatenate([xs, [-1.0]]) * A      # the far end has the weight of the near end
        z = np.zeros(n + 1)
        P["G"] = np.column_stack([g, z, z] if rng.random() < .5 else [z, g, z])
        P["apod"] = (met, np.ones((1, n + 1)), par)
        center(P)
        D.append(("apodization", P, dict(P, apod=("ud", np.concatenate([w, w[:1]]).reshape(-1, 1), par))))
    ro = R.run("oct", [gen.oct_sir(x) for d in D for x in d[1:]], par=8)
    exp = harness.pmap(sirval.expected, [d[1] for d in D])
    for k, (kind, P, Q) in enumerate(D):
        a, b = ro[2 * k], ro[2 * k + 1]
        if "skipped" in (a.kind, b.kind) or isinstance(exp[k], str):
            ck.skip("skipped"); continue
        ck.count("arrays with helper-made " + kind)
        cases = [("oct", gen.oct_sir(P)), ("oct", gen.oct_sir(Q))]
        if a.kind != "ok" or b.kind != "ok":
            ck.violate("%s:%s:failed" % (kind, P["fn"]), harness.show(a if a.kind != "ok" else b), cases=cases, info=P); continue
        A, B = np.asarray(a.out), np.asarray(b.out)
        ck.saw((kind, P["fn"], repr(P)), nontrivial=bool(np.any(B)))
        for n, col in enumerate(exp[k]):
            # rounding may move a contribution that lies between two samples: the model's slack covers it in either call
            s = max(np.abs(A[:, n]).max(), col.scale)
            if np.any(np.abs(A[:, n] - B[:, n]) > 1e-9 * s + 2 * col.slack):
                i = int(np.argmax(np.abs(A[:, n] - B[:, n]) - 2 * col.slack))
                ck.violate("%s:%s:value" % (kind, P["fn"]), "column %d sample %d: built-in %.12g, with the helper's %s %.12g" % (n, i, A[i, n], kind, B[i, n]), cases=cases, info=P); break
    return ck.finish()

def center(P):
    """a window over the arrivals of the changed array"""
    P["delay"] = row(0.0)
    lo, hi = gen.arrival_range(P)
    nt = int(P["s"][3]); dt = max(P["s"][2], float(hi.max() - lo.min()) / nt * 1.02)
    P["s"] = (P["s"][0], P["s"][1], dt, nt)
    P["delay"] = row(float(lo.min()) - dt * 1.5)

def settle(ck, label, lang, case, judge, r):
    if r.kind == "skipped":
        ck.skip("skipped"); return
    y = np.asarray(r.out if r.out is not None else 0.0, float).ravel()
    ck.saw((label, repr(case["args"])), nontrivial=y.size > 0 and bool(np.ptp(y) > 0 or y.size == 1))
    ck.count(label); ck.count("values compared", y.size)
    if r.kind != "ok":
        ck.violate(label.split()[0] + ":" + " ".join(label.split()[1:]) + ":" + r.kind, harness.show(r), lang, case); return
    m = judge(r)
    if m:
        ck.violate(label.split()[0] + ":" + " ".join(label.split()[1:]) + ":" + m[0], m[1], lang, case)
    ck.sample(dict(label=label, args=case["args"], first=y[:4].tolist()))
