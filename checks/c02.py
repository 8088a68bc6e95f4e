from vf import gen, work, harness
from . import sirval
import numpy as np

RULE = ("one evaluation = one call (Python or Octave) of a seeded random focused-aperture case compared sample by sample with the numpy surface sum with the focusing law; "
        "non-trivial when a column has a contribution in the window; distinct by arguments, language and environment")
METS = ["off", "x", "y", "xy", "x+y"]

def run():
    ck = harness.Check("C02", RULE, ["cells within rounding of a sample or aperture boundary may fall either way"])
    R = work.Runner("rel", sirval.targets(gen.FOC2))
    m = 40 if ck.thorough else 4
    cases = []
    for fn in gen.FOC2:
        for met in METS:
            rng = ck.subrng(fn, met)
            cases += sirval.plan(ck, fn, rng, 22 * m, 12 * m, 2 * m, 5 * m, foc=met)
            cases += sirval.lossy(rng, fn, 3 * m, foc=met)
    order = ck.rng.permutation(len(cases))
    cases = [cases[i] for i in order]
    sirval.check(ck, R, cases)
    # focusing 'off' must be the unfocused transducer, bit for bit, whatever the focal argument
    offs = [(P, e) for P, e in cases if P["foc"][0] == "off"]
    pairs = []
    R2 = work.Runner("rel", sirval.targets(["dreamrect", "dreamcirc"]))
    un = [dict(P, fn=P["fn"][:-2]) for P, e in offs]
    for lang, mk in (("py", gen.py_sir), ("oct", gen.oct_sir)):
        a = R.run(lang, [mk(P) for P, e in offs]); b = R2.run(lang, [mk(P) for P in un])
        for (P, e), x, y in zip(offs, a, b):
            if x.kind == "skipped" or y.kind == "skipped":
                ck.skip("skipped"); continue
            ck.saw(("off", lang, repr(P)))
            if x.kind != y.kind:
                ck.violate("%s:%s:off-kind" % (P["fn"], lang), "focused 'off': %s; unfocused: %s" % (x, y), lang, mk(P), "rel", P)
            elif x.kind == "ok":
                sc = np.abs(np.asarray(y.out)).max() + 1e-300
                if np.shape(x.out) != np.shape(y.out) or not np.allclose(x.out, y.out, rtol=1e-9, atol=1e-9 * sc):
                    ck.violate("%s:%s:off" % (P["fn"], lang), "focusing off differs from the unfocused transducer", lang, mk(P), "rel", P)
    return ck.finish()
