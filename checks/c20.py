"""Python against Octave, bit for bit: results, acceptance, error policies, shapes of arguments."""
import numpy as np
from vf import gen, calls, work, harness, dasm
from vf.gen import row, F, U
from checks import c10

RULE = ("one evaluation = one call executed in both languages with the same arguments; both must succeed with bit-identical results (up to rounding for the FFT-based convolution and lossy media, whose transform plans "
        "may differ), or both must fail; non-trivial when a result has a non-zero sample or the call must fail; distinct by arguments")

FNS = gen.ALLSIR + calls.DAS + ["fftconv_p"]

def cross(rng, fn, i, thorough):
    """calls covering every option string and shape of the optional vectors"""
    kw = {}
    if fn in gen.ARR3:
        kw = dict(foc=gen.FOCS[i % 6], steer=gen.STEERS[(i // 6) % 4], apod=gen.APODS[(i * 5 + i // 9) % 9])
    elif fn == "dream_arr_annu":
        kw = dict(foc=["off", "x", "y", "xy", "x+y", "ud"][i % 6], apod=gen.APODS[(i * 5 + i // 6) % 9])
    elif fn in gen.FOC2:
        kw = dict(foc=["off", "x", "y", "xy", "x+y"][i % 5])
    if fn in calls.PYSIR:
        kw["alpha"] = 0.0 if rng.random() < .8 else U(rng, .1, 4)
        kw["fit"] = bool(rng.random() < .6)
    if fn.startswith("das") and i % 12 == 7:
        kw["long"] = True
    return calls.make(rng, fn, **kw)

def reshape(rng, a):
    """the same vector in the other orientation"""
    if isinstance(a, np.ndarray) and a.ndim == 2 and 1 in a.shape and a.size > 1:
        return F(a.T.copy())
    return a

def run():
    ck = harness.Check("C20", RULE, ["FFT-based convolution and lossy responses are compared up to rounding"])
    R = work.Runner("rel", list(dict.fromkeys(calls.targets(FNS))))
    m = 500 if ck.thorough else 150
    J = []
    for fn in FNS:
        for i in range(m if fn in gen.ARR3 or fn == "dream_arr_annu" else m // 2 if not fn.startswith("das") else m // 3):
            rng = ck.subrng(fn, i)
            c = cross(rng, fn, i, ck.thorough)
            env = gen.nthreads_env(rng)
            o, p = c.case("oct", env), c.case("py", env)
            J.append((c, "plain", o, p, None))
            base = fn.split(":")[0]
            if i % 3 == 0 and base != "fftconv_p":      # every error policy, and the default one
                e = 8 if base == "das" else len(o["args"]) - 1
                for pol in ("stop", "warn", "ignore", None):
                    oo, pp = [dict(x, args=x["args"][:e] + ([pol] if pol else [])) for x in (o, p)]
                    J.append((c, "policy %s" % (pol or "default"), oo, pp, None))
            if i % 3 == 1:      # vectors in the other orientation, where both accept them
                vec = [k for k, a in enumerate(o["args"]) if isinstance(a, np.ndarray) and a.ndim == 2 and 1 in a.shape and a.size > 1 and k not in c.rows and (base not in ("das", "fftconv_p"))]
                if base == "fftconv_p": vec = [1] if 1 in o["args"][1].shape else []
                if base == "das": vec = [5] if o["args"][5].size > 1 else []
                vec = [k for k in vec if not (fn in gen.ARR3 and k == 2)]
                for k in ([vec[int(rng.integers(len(vec)))]] if vec else []):
                    oo, pp = [dict(x, args=[reshape(rng, a) if q == k else a for q, a in enumerate(x["args"])]) for x in (o, p)]
                    J.append((c, "argument %d turned" % (k + 1), oo, pp, None))
            if i % 12 == 2:      # malformed: both must refuse
                bad_o = dict(c10.corrupt(ck.subrng("bad", fn, i), c, "oct")); bad_p = dict(c10.corrupt(ck.subrng("bad", fn, i), c, "py"))
                for nm in bad_o:
                    if nm in bad_p and not nm.endswith(" arguments") and not nm.startswith("argument "):
                        J.append((c, "bad: " + nm, dict(o, args=bad_o[nm]), dict(p, args=bad_p[nm]), None))
    pr, orr = harness.both(R, [j[3] for j in J], [j[2] for j in J])
    for (c, kind, o, p, _), a, b in zip(J, orr, pr):
        fn = c.fn
        key = "%s:%s:" % (fn, kind.split(" ")[0])
        cs = [("oct", o), ("py", p)]
        info = dict(call=gen.brief(o["args"]), kind=kind, env=o["env"])
        if "skipped" in (a.kind, b.kind):
            ck.skip("skipped"); continue
        bad = kind.startswith("bad")
        ok = a.kind == b.kind == "ok"
        ck.saw((fn, kind, repr(info)), nontrivial=bad or not ok or bool(np.any(a.out)))
        ck.count(kind.split(":")[0] + (": both accepted" if ok else ": both refused" if a.kind == b.kind == "exc" else ": other"))
        if a.kind in ("crash", "hang") or b.kind in ("crash", "hang"):
            ck.violate(key + "crash", "octave: %s; python: %s" % (harness.show(a), harness.show(b)), cases=cs, info=info); continue
        if a.kind != b.kind:
            ck.violate(key + "acceptance", "%s: octave: %s; python: %s" % (kind, harness.show(a), harness.show(b)), cases=cs, info=info); continue
        if not ok:
            continue
        x, y = np.asarray(a.out), np.asarray(b.out)
        ck.count("results compared"); ck.count("samples compared", x.size)
        if fn.startswith("das"):
            x, y = x.ravel(), y.ravel()
        if x.shape != y.shape:
            ck.violate(key + "shape", "octave %s, python %s" % (x.shape, y.shape), cases=cs, info=info); continue
        if x.dtype != y.dtype:
            ck.violate(key + "type", "octave %s, python %s" % (x.dtype, y.dtype), cases=cs, info=info); continue
        if harness.same(x, y):
            ck.count("bit-identical")
        elif not calls.agree(c, x, y):
            k = np.argwhere(~((x == y) | (np.isnan(x) & np.isnan(y))))[0]
            ck.violate(key + "differs", "%s: first at %s: octave %.17g, python %.17g" % (kind, k.tolist(), x[tuple(k)], y[tuple(k)]), cases=cs, info=info)
        if "warn" in kind or fn in calls.PYSIR and c.info["err"] == "warn" and kind == "plain":
            if ("arning" in a.stdout) != ("arning" in b.stdout):
                ck.violate(key + "warning", "octave prints %r, python %r" % (a.stdout[:200], b.stdout[:200]), cases=cs, info=info)
    for j in J[::max(1, len(J) // 6)]:
        ck.sample(dict(fn=j[0].fn, kind=j[1], args=j[2]["args"]), 6)
    return ck.finish()
