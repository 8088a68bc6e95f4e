from vf import gen, work, harness
from . import sirval

RULE = ("one evaluation = one call (Python or Octave) of the annular array, every combination of focusing and apodization method, compared sample by sample with "
        "the numpy ring superposition; non-trivial when a column has a contribution in the window; distinct by arguments, language and environment")

def run():
    ck = harness.Check("C04", RULE, ["cells within rounding of a sample or aperture boundary and ring delays within rounding of half a sample may fall either way"])
    fn = "dream_arr_annu"
    R = work.Runner("rel", sirval.targets([fn]))
    m = 40 if ck.thorough else 4
    cases = []
    for foc in ["off", "x", "y", "xy", "x+y", "ud"]:
        for ap in gen.APODS:
            rng = ck.subrng(foc, ap)
            cases += sirval.plan(ck, fn, rng, 5 * m, 3 * m, 0, 1 * m, foc=foc, apod=ap)
            cases += sirval.lossy(rng, fn, m // 2, foc=foc, apod=ap)
    rng = ck.subrng("more")
    cases += sirval.plan(ck, fn, rng, 40 * m, 30 * m, 6 * m, 6 * m)
    for P, e in cases:
        P["Grow"] = bool(rng.random() < .5)
    order = ck.rng.permutation(len(cases))
    sirval.check(ck, R, [cases[i] for i in order])
    return ck.finish()
