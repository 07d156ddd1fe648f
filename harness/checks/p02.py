"""P02: a design depends only on space, sample count, seed (and skip)"""
import numpy as np

from harness.gen import R, space
from mfpml.design_of_experiment.sf_samplers import (
    LatinHyperCube, RandomSampler, SobolSequence)

RULE = ("a case interleaves draws from several sampler instances with random "
        "activity on the global random generator and compares every pair of "
        "draws that share (sampler, space, n, seed, skip); non-trivial: a "
        "repeated key, a pair of seeds, or a pair of spaces that was compared")
MIN = {"repeated draws compared": 300, "seed pairs compared": 100,
       "affine pairs compared": 100}
SAMPLERS = dict(lhs=LatinHyperCube, random=RandomSampler,
                sobol=SobolSequence)


def cases(tier, rng):
    return [dict(kind="history") for _ in
            range(4000 if tier == "quick" else 20000)]


def run(spec, mon):
    rng = R(spec)
    d = int(rng.choice([1, 2, 3, 5, 9, 16]))
    spaces = [np.tile([0.0, 1.0], (d, 1)), space(rng, d).astype(float),
              space(rng, d).astype(float)]
    other = space(rng, d + 1).astype(float)
    name = str(rng.choice(list(SAMPLERS)))
    skip = int(rng.choice([0, 1, 4, 11])) if name == "sobol" and \
        rng.random() < .5 else None
    kw = {} if skip is None else dict(num_skip=skip)
    inst = {}
    seen, seeds, ns = {}, [0, 1, 42, int(rng.integers(2**32)),
                           int(rng.integers(2**31))], [1, 4, 9, 33]
    if rng.random() < .03:
        ns[-1] = int(rng.integers(100, 2000))
    # seeds that agree in most of their bits or digits
    seeds += [seeds[4] ^ 1 << int(rng.integers(31)), 42 + 10**int(
        rng.integers(1, 10))]
    for step in range(40):
        k = int(rng.integers(3))
        n, seed = int(rng.choice(ns)), seeds[rng.integers(len(seeds))]
        if k not in inst or rng.random() < .3:
            inst[k] = SAMPLERS[name](design_space=spaces[k].copy(), **kw)
        a = rng.random()
        if a < .3:
            np.random.seed(int(rng.integers(2**32)))
        elif a < .6:
            np.random.random(int(rng.integers(1, 50)))
        elif a < .7:
            o = str(rng.choice(list(SAMPLERS)))
            SAMPLERS[o](design_space=other).get_samples(
                int(rng.choice(ns)), seeds[rng.integers(len(seeds))])
        elif a < .8:
            inst[k].get_samples(int(rng.choice(ns)), None)
        S = np.array(inst[k].get_samples(num_samples=n, seed=seed))
        key = (k, n, seed)
        if key in seen:
            mon.same(S, seen[key], "same arguments give the same design",
                     f"{name} d={d} {key}")
            mon.event("repeated draws compared")
            mon.state("rep", name, d, n, skip)
        else:
            seen[key] = S
    for (k, n, seed), S in seen.items():
        for (k2, n2, seed2), S2 in seen.items():
            if k == k2 and n == n2 and seed < seed2:
                mon.check(not np.array_equal(S, S2),
                          "different seeds give different designs",
                          f"{name} seeds {seed} {seed2} n={n} d={d}")
                mon.event("seed pairs compared")
            if k == 0 and k2 > 0 and (n, seed) == (n2, seed2):
                sp = spaces[k2]
                ref = sp[:, 0] + S * (sp[:, 1] - sp[:, 0])
                mon.close(S2, ref, 4 * np.finfo(float).eps * np.tile(
                    np.abs(sp).max(1), (n, 1)),
                    "design is the affine image of the unit-cube design",
                    f"{name} d={d} n={n} seed={seed}")
                mon.event("affine pairs compared")
                mon.state("aff", name, d, n, skip)
