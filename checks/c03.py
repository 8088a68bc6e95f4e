from vf import gen, work, harness
from . import sirval
import numpy as np

RULE = ("one evaluation = one call (Python or Octave) of an array function, every combination of focusing, steering and apodization method, compared sample by sample "
        "with the numpy superposition of delayed, weighted elements; non-trivial when a column has a contribution in the window; distinct by arguments, language and environment")

def run():
    ck = harness.Check("C03", RULE, ["cells within rounding of a sample or aperture boundary may fall either way"])
    R = work.Runner("rel", sirval.targets(gen.ARR3))
    m = 25 if ck.thorough else 3
    cases = []
    for fn in gen.ARR3:
        rng = ck.subrng(fn)
        for rep in range(m):
            for foc in gen.FOCS:
                for st in gen.STEERS:
                    for ap in gen.APODS:
                        t = rng.random()
                        if t < .6:
                            P = gen.gen_sir(rng, fn, fit=True, foc=foc, steer=st, apod=ap, no=int(rng.choice([1, 2, 3, 5, 9])), err=str(rng.choice(["stop", "warn", "ignore", "<default>"])))
                        else:
                            P = gen.gen_sir(rng, fn, fit=False, foc=foc, steer=st, apod=ap, no=int(rng.choice([1, 2, 3, 5, 9])), err=str(rng.choice(["warn", "ignore"])))
                        cases.append((P, gen.nthreads_env(rng)))
        for i in range(20 * m):
            n = int(rng.choice([1, 9, 16, 25, 32, 48]))
            P = gen.gen_sir(rng, fn, fit=bool(rng.random() < .5), no=int(rng.choice([1, 4, 11, 30])), ne=n, err="ignore")
            if sirval.cells(P) * len(P["Ro"]) < 60000:
                cases.append((P, gen.nthreads_env(rng)))
        for foc in gen.FOCS:
            for ap in gen.APODS:
                cases += sirval.lossy(rng, fn, max(1, m // 3), foc=foc, steer=str(rng.choice(gen.STEERS)), apod=ap)
    order = ck.rng.permutation(len(cases))
    sirval.check(ck, R, [cases[i] for i in order])
    return ck.finish()
