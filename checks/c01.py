from vf import gen, work, harness
from . import sirval

RULE = ("one evaluation = one call (Python or Octave) of a seeded random well-formed case compared column by column and sample by "
        "sample with the numpy surface sum; non-trivial when at least one column has a contribution inside the window; distinct by argument bytes, language and environment")

def run():
    ck = harness.Check("C01", RULE, ["cells whose sample index or membership of the aperture is within rounding of a tie may fall either way"])
    R = work.Runner("rel", sirval.targets(gen.SIR5))
    m = 40 if ck.thorough else 4
    cases = []
    for fn in gen.SIR5:
        rng = ck.subrng(fn)
        cases += sirval.plan(ck, fn, rng, 70 * m, 45 * m, 8 * m, 15 * m)
    order = ck.rng.permutation(len(cases))
    sirval.check(ck, R, [cases[i] for i in order])
    return ck.finish()
