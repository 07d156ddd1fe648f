"""P03: LHS stratified, Sobol a low-discrepancy prefix, random uniform"""
import numpy as np
from scipy import stats

from harness.gen import R, space, unit
from mfpml.design_of_experiment.sf_samplers import (
    LatinHyperCube, RandomSampler, SobolSequence)

RULE = ("a case fixes sampler, space, seed and judges slices, prefixes and "
        "skips (LHS, Sobol) or uniformity and independence at 1e-9 "
        "significance (random); non-trivial: each (relation, dimension, "
        "size) judged")
MIN = {"LHS designs judged": 200, "Sobol prefixes judged": 200,
       "Sobol blocks judged": 100, "random designs judged": 20,
       "bounds given flat": 2, "wide random designs": 50}


def cases(tier, rng):
    m = 40 if tier == "quick" else 120
    return ([dict(kind="lhs") for _ in range(60 * m)]
            + [dict(kind="sobol") for _ in range(60 * m)]
            + [dict(kind="random") for _ in range(30 * m)])


def stratified(mon, U, n, what, det):
    """one point per slice of width 1/n in every column"""
    s = np.sort(U, axis=0)
    i = np.arange(n)[:, None]
    tol = 1e-9
    mon.check((s >= i / n - tol).all() and (s <= (i + 1) / n + tol).all(),
              what, det)


def run(spec, mon):
    rng = R(spec)
    d = int(rng.choice([1, 2, 3, 4, 6, 10, 21]))
    sp = space(rng, d).astype(float)
    given, form = sp, str(rng.choice(["array", "array", "list", "flat"]))
    if form == "list":
        given = sp.tolist()
    elif form == "flat" and d == 1:
        given = sp[0] if rng.random() < .5 else sp[0].tolist()
        mon.event("bounds given flat")
    if spec["kind"] == "lhs":
        s = LatinHyperCube(design_space=given)
        for _ in range(8):
            n = int(rng.choice([1, 2, 3, 4, 7, 10, 16, 25, 63, 100, 250,
                                999]))
            if rng.random() < .004:
                n = int(rng.integers(1000, 9000))
            seed = int(rng.integers(2**31)) if rng.random() < .9 else None
            U = unit(s.get_samples(num_samples=n, seed=seed), sp)
            stratified(mon, U, n, "one LHS point per slice",
                       f"n={n} d={d} seed={seed}")
            mon.event("LHS designs judged")
            mon.state("lhs", d, n)
        return
    if spec["kind"] == "random":
        s = RandomSampler(design_space=given)
        n = int(rng.choice([500, 2000, 5000]))
        U = unit(s.get_samples(num_samples=n, seed=int(rng.integers(2**31))),
                 sp)
        for j in range(d):
            p = stats.kstest(U[:, j], "uniform").pvalue
            mon.check(p > 1e-9, "random points are uniform",
                      f"column {j} p={p} n={n}")
            r = stats.spearmanr(U[:-1, j], U[1:, j]).statistic
            mon.check(abs(r) < 6.5 / np.sqrt(n), "rows are independent", r)
            for k in range(j):
                r = stats.spearmanr(U[:, j], U[:, k]).statistic
                mon.check(abs(r) < 6.5 / np.sqrt(n),
                          "variables are independent", f"{j},{k} r={r}")
        # the unit cube keeps every bit: values of independent variables
        # never coincide, in no arrangement
        k = int(rng.choice([d, 8, 16, 17, 24, 32, 33, 50, 64]))
        V = RandomSampler(design_space=np.tile([0.0, 1.0], (k, 1)))
        V = np.array(V.get_samples(num_samples=200, seed=int(rng.integers(
            2**31))))
        mon.check(len(np.unique(V)) == V.size, "variables are independent",
                  f"{V.size - len(np.unique(V))} equal values among "
                  f"{V.size}, d={k}")
        mon.event("wide random designs", int(k > 16))
        mon.event("random designs judged")
        mon.state("random", d, n)
        return
    seed = int(rng.integers(2**31))

    def sob(n, skip="default"):
        kw = {} if skip == "default" else dict(num_skip=int(skip))
        return np.array(SobolSequence(design_space=given, **kw).get_samples(
            num_samples=int(n), seed=seed))

    full = sob(400, 0)
    tol = 4 * np.finfo(float).eps * np.abs(sp).max()
    for _ in range(8):
        n = int(rng.choice([1, 2, 3, 7, 8, 20, 32, 65, 127, 128]))
        k = int(rng.choice([0, 1, 2, 3, 8, 13, 64, 100, 255]))
        mon.close(sob(n, k), full[k:k + n], tol,
                  "skipping k drops the first k points",
                  f"n={n} k={k} d={d} seed={seed}")
        mon.close(sob(n), full[d:d + n], tol,
                  "default skip is the number of variables",
                  f"n={n} d={d} seed={seed}")
        mon.event("Sobol prefixes judged", 2)
        mon.state("prefix", d, n, k)
    for m in range(0, 9):
        j = int(rng.integers(0, 4))
        B = unit(sob(2**m, j * 2**m), sp)
        stratified(mon, B, 2**m, "aligned Sobol block: one point per slice",
                   f"m={m} block={j} d={d}")
        mon.event("Sobol blocks judged")
        mon.state("block", d, m, j)
    # one sampler object drawing twice continues with nothing remembered
    s = SobolSequence(design_space=given, num_skip=5)
    a = np.array(s.get_samples(num_samples=10, seed=seed))
    b = np.array(s.get_samples(num_samples=20, seed=seed))
    mon.close(b[:10], a, tol, "shorter design is a prefix on one sampler")
