"""P01: single-fidelity samplers return n points inside the design space"""
import numpy as np

from harness.gen import R, SPACE_KINDS, space
from mfpml.design_of_experiment.sf_samplers import (
    FixNumberSampler, LatinHyperCube, RandomSampler, SobolSequence)

RULE = ("a case draws a random design space (dimension 1-40, eight kinds of "
        "bounds, list/tuple/int/float array), builds one sampler and draws "
        "several designs of random size and seed from it; non-trivial: each "
        "(sampler, dimension, size class, space kind, seed class) judged")
MIN = {"designs judged": 300, "designs from int bounds": 20,
       "fixed-number designs": 20, "large Sobol draws": 8}
SAMPLERS = dict(lhs=LatinHyperCube, random=RandomSampler,
                sobol=SobolSequence)


def cases(tier, rng):
    n = 8000 if tier == "quick" else 30000
    out = [dict(kind="draws") for _ in range(n)]
    out += [dict(kind="fixed") for _ in range(n // 8)]
    out += [dict(kind="big", n=int(k)) for k in
            (31, 33, 64, 200, 1000, 1025, 4096, 4097, 10000, 40000, 70000)]
    return out


def given(rng, sp):
    k = int(rng.integers(4))
    if k == 0:
        return sp.tolist()
    if k == 1:
        return [list(r) for r in sp.tolist()]
    if k == 2:
        return np.asfortranarray(sp)
    return sp.copy()


def judge(mon, sp, n, S, sampler, name):
    sp = np.asarray(sp, float)
    d = len(sp)
    S = np.asarray(S)
    if not mon.check(S.shape == (n, d), "n rows, one column per variable",
                     f"{name}: {S.shape} for n={n} d={d}"):
        return
    mon.check(S.dtype.kind == "f" and np.isfinite(S).all(),
              "finite floating-point points", name)
    ulp = 4 * np.finfo(float).eps * np.abs(sp).max(1)
    mon.check((S >= sp[:, 0] - ulp).all() and (S <= sp[:, 1] + ulp).all(),
              "inside the bounds", f"{name}: {sp.tolist()}")
    if name != "fixed":
        mon.check(len(np.unique(S, axis=0)) == n, "distinct points",
                  f"{name} n={n} d={d}")
    mon.same(sampler.samples, S, "sampler keeps the returned design", name)
    mon.event("designs judged")


def run(spec, mon):
    rng = R(spec)
    if spec["kind"] == "big":
        n = spec["n"]
        for name, cls in SAMPLERS.items():
            for d in (1, 3):
                sp = space(rng, d).astype(float)
                s = cls(design_space=sp)
                judge(mon, sp, n, s.get_samples(num_samples=n, seed=3), s,
                      name)
                mon.state("big", name, n, d)
        mon.event("large Sobol draws")
        return
    d = int(rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 12, 20, 40]))
    kind = str(rng.choice(SPACE_KINDS))
    sp = space(rng, d, kind)
    arg = given(rng, sp)
    before = np.array(arg, copy=True)
    if spec["kind"] == "fixed":
        s = FixNumberSampler(design_space=arg)
        for _ in range(3):
            n = int(rng.integers(1, 30))
            S = s.get_samples(num_samples=n, seed=int(rng.integers(1e6)))
            mon.same(S, np.tile(np.asarray(sp).ravel(), (n, 1)),
                     "fixed-number sampler repeats the flattened space")
            mon.same(s.samples, S, "sampler keeps the returned design")
            mon.event("fixed-number designs")
            mon.state("fixed", d, n)
        mon.same(arg, before, "design space passed in is unchanged")
        return
    name = str(rng.choice(list(SAMPLERS)))
    kw = {}
    if name == "sobol" and rng.random() < .6:
        kw["num_skip"] = int(rng.choice([0, 1, 2, 5, 16, 37]))
    s = SAMPLERS[name](design_space=arg, **kw)
    kept = []
    for _ in range(6):
        n = int(rng.choice([1, 2, 3, 5, 8, 13, 17, 50, 128, 301]))
        seed = rng.choice([0, 1, 7, 123456, 2**31 - 1, -1, -2])
        seed = None if seed == -1 else (
            int(rng.integers(2**32)) if seed == -2 else int(seed))
        if rng.random() < .2:
            S = s.get_samples(num_samples=n)
        elif rng.random() < .5:
            S = s.get_samples(n, seed)
        else:
            S = s.get_samples(num_samples=n, seed=seed)
        judge(mon, sp, n, S, s, name)
        kept.append((S, np.array(S, copy=True)))
        mon.state(name, d, n, kind, seed is None, sorted(kw))
        if kind == "int":
            mon.event("designs from int bounds")
    mon.same(arg, before, "design space passed in is unchanged")
    for S, c in kept:
        mon.same(S, c, "earlier designs stay as returned")
    mon.check(s.num_dim == d, "dimension of the sampler")
