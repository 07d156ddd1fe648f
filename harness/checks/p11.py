"""P11: basis functions are the complete monomials up to their degree"""
import itertools

import numpy as np

from harness.gen import BF, R, variants

RULE = ("a case evaluates the three bases on one random batch (random, "
        "integer, zero, extreme and repeated rows; several layouts) and "
        "compares with independently built monomials; non-trivial: each "
        "(basis, dimension, batch-size class)")
MIN = {"batches judged": 3000, "large batches": 40, "many variables": 60}


def cases(tier, rng):
    return [dict(kind="batch") for _ in
            range(6000 if tier == "quick" else 20000)]


def monomials(X, deg):
    n, d = X.shape
    cols = []
    for g in range(deg + 1):
        for c in itertools.combinations_with_replacement(range(d), g):
            v = np.ones(n)
            for j in c:
                v = v * X[:, j]
            cols.append(v)
    return np.stack(cols, 1)


def run(spec, mon):
    rng = R(spec)
    d, n = int(rng.integers(1, 12)), int(rng.choice([1, 2, 3, 10, 64]))
    if rng.random() < .02:      # now and then a great many rows
        d, n = int(rng.integers(1, 7)), int(2**rng.uniform(7, 13))
        mon.event("large batches")
    elif rng.random() < .03:    # or of variables
        d, n = int(rng.integers(12, 41)), int(rng.integers(1, 4))
        mon.event("many variables")
    k = rng.integers(5)
    X = rng.random((n, d))
    if k == 1:
        X = rng.integers(-5, 6, (n, d)).astype(float)
    elif k == 2:
        X = rng.normal(size=(n, d)) * 10.0**rng.uniform(-6, 6, d)
    elif k == 3:
        X[rng.random((n, d)) < .4] = 0
    elif k == 4:
        X[-1] = X[0]
    inst = {}
    for cls, deg in ((BF.Ordinary, 0), (BF.Linear, 1), (BF.Quadratic, 2)):
        b = inst.setdefault(cls, cls())
        ref = monomials(X, deg)
        keep = X.copy()
        for lab, V in variants(X, rng):
            F = np.asarray(b(V), float)
            mon.close(F, ref, 4e-16 * np.abs(ref),
                      f"{cls.__name__}: all monomials up to degree {deg}, in "
                      "order", f"d={d} n={n} {lab}")
            mon.event("batches judged")
        mon.same(X, keep, "the input is not modified", cls.__name__)
        mon.same(b(X), cls()(X), "all instances agree")
        rows = range(n) if n < 99 else rng.integers(0, n, 20)
        mon.close(np.vstack([b(X[i:i + 1]) for i in rows]), ref[rows],
                  4e-16 * np.abs(ref[rows]), "row by row",
                  f"{cls.__name__} d={d}")
        if k == 1:
            mon.same(np.asarray(b(X.astype(int)), float), ref,
                     "integer input")
        mon.state(deg, d, min(n, 99), int(k))
