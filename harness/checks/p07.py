"""P07: benchmark problems compute their published formulas"""
import numpy as np

from harness import problems as pb
from harness.gen import R

RULE = ("a case compares one problem (random parameters and dimension for "
        "the parametric ones) with the reference formula, evaluated in "
        "extended precision, at random, boundary, corner, near-boundary and "
        "rounded points; non-trivial: each (problem, fidelity, dimension)")
MIN = {"points compared": 20000, "parametric problems": 60,
       "single vectors": 150, "large batches": 60}


def cases(tier, rng):
    m = 80 if tier == "quick" else 250
    return [dict(kind=n, name=n) for n in pb.ALL
            for _ in range(m * (5 if n in pb.PAR else 1))]


def run(spec, mon):
    rng = R(spec)
    name = spec["name"]
    p, d, par = pb.make(name, rng, big=True)
    dom = pb.domain(name, d)
    if name in pb.PAR:
        mon.event("parametric problems")
        # instances with other parameters must not leak into this one
        pb.make(name, rng)
    for fid in pb.fidelities(name):
        n = int(rng.choice([5, 40, 150]))
        if rng.random() < .04:
            n = int(2**rng.uniform(8, 12.5))
            mon.event("large batches")
        X = pb.points(rng, dom, n)
        if name == "mf_Discontinuous":
            X = np.vstack([X, [[0.5], [np.nextafter(0.5, 1)], [0.49], [.51]]])
        if name in ("AckleyN2", "Ackley", "Thevenot"):
            X = np.vstack([X, np.zeros((1, d)), 1e-3 * rng.normal(
                size=(3, d))])
        if name == "Thevenot":
            # the second term only shows where some coordinate is small
            Z = pb.points(rng, dom, 20)
            Z[np.arange(len(Z)), rng.integers(d, size=len(Z))] *= 10.0**-rng.\
                uniform(1, 6, len(Z))
            X = np.vstack([X, Z])
        Y = np.asarray(getattr(p, fid)(X), float)
        ref = pb.formula(name, fid, X, par)
        r = np.asarray(ref, float).reshape(-1, 1)
        tol = pb.tol(name, r)
        mon.close(Y, r, tol, f"{name}.{fid} equals its formula",
                  lambda: f"d={d} {par}")
        mon.event("points compared", len(X))
        one = rng.integers(len(X), size=4)
        for i in one:       # batches of one
            mon.close(getattr(p, fid)(X[i:i + 1].copy()), r[i:i + 1],
                      np.broadcast_to(tol, r.shape)[i:i + 1],
                      f"{name}.{fid} equals its formula",
                      lambda: f"alone, d={d} {par}")
        if name in ("Thevenot", "Ackley", "AckleyN2"):
            # these also take a single point as a vector
            for i in one:
                y = np.asarray(getattr(p, fid)(X[i].copy()), float)
                mon.check(y.size == 1, "one value per point", f"{y} {name}")
                mon.close(y.ravel(), r[i], np.broadcast_to(
                    tol, r.shape)[i], f"{name}.{fid} of a vector equals its "
                    "formula", lambda: f"d={d} {par}")
                mon.event("single vectors")
        mon.state(name, fid, d, len(par))
