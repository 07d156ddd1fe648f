"""P24: PSO and DE are reproducible and converge on convex problems"""
import contextlib
import io

import numpy as np

from harness.ea import Run
from harness.gen import R, space
from mfpml.optimization.evolutionary_algorithms import DE, PSO

RULE = ("paired runs with the same global seed (fresh and used optimizer "
        "objects, printing, shifted or scaled objective, stretched box) "
        "compared point by point, and default optimizers on random strictly "
        "convex quadratics with minimizers inside and on the boundary; "
        "non-trivial: each (algorithm, strategy, relation) and each "
        "(algorithm, dimension, place of the minimizer)")
MIN = {"repeated runs": 400, "reused objects": 50, "shifted objectives": 50,
       "scaled objectives": 50, "stretched boxes": 50, "printed runs": 50,
       "other seeds": 200, "convergence runs": 100, "corner minimizers": 20}
# distance of the reported point to the minimizer, in widths of the box, per
# dimension (minimizer inside, in a corner), from 500 runs each: of the runs
# together hardly any may be farther than USUAL (what 99 % stayed below, with a
# margin) and next to none farther than FAR (several times the largest seen).
# A single run proves nothing: both algorithms draw random numbers
FAR = {
    "PSO": [(.005, .01), (.02, .1), (.04, .4), (.08, .6), (.12, .7)],
    "DE/rand/1/bin": [(1e-6, 1e-6), (1e-5, 1e-5), (1e-4, 1e-3), (2e-3, 5e-3),
                      (1e-2, 2e-2)],
    "DE/best/1/bin": [(1e-6, 1e-6), (1e-6, 1e-6), (1e-6, 1e-5), (1e-5, 1e-4),
                      (1e-4, 1e-3)]}
USUAL = {
    "PSO": [(2e-5, 8e-4), (1.5e-3, .018), (4e-3, .08), (1e-2, .15),
            (2e-2, .2)],
    "DE/rand/1/bin": [(1e-7, 1e-7), (2e-7, 2e-7), (3e-6, 4e-5), (1e-4, 3e-4),
                      (6e-4, 1.5e-3)],
    "DE/best/1/bin": [(1e-7, 1e-7), (1e-7, 1e-7), (1e-7, 1e-7), (1e-7, 2e-7),
                      (1e-7, 4e-6)]}


def cases(tier, rng):
    m = 6 if tier == "quick" else 20
    return ([dict(kind="pair", algo=a) for a in ("PSO", "DE")
             for _ in range(300 * m)]
            + [dict(kind="quad", algo=a, d=d) for a in FAR
               for d in range(1, 6) for _ in range(10 * m)])


def same(mon, a, b, what, det, scale=1.0):
    X, Y = (np.array(v) for v in (a.X, a.Y))
    V, W = (np.array(v) for v in (b.X, b.Y))
    mon.same(X * scale, V, what, det)
    return Y, W


def run(spec, mon):
    rng = R(spec)
    if spec["kind"] == "quad":
        return quad(spec, mon, rng)
    r = Run(rng, spec["algo"], big=True)
    rel = str(rng.choice(["same", "used", "shift", "scale", "stretch",
                          "print"]))
    det = f"{rel}: {r}"
    if rel in ("shift", "scale"):
        base = r.f
        # values on a grid: sums and products are exact
        r.f = lambda X, *a: np.clip(np.round(base(X, *a) * 2**10), -2.0**40,
                                    2.0**40) / 2**10
        if r.stop is not None:
            r.stop = float(np.clip(np.round(r.stop * 2**10), -2.0**40,
                                   2.0**40) / 2**10)
    if rel == "stretch" and r.sp.dtype.kind != "f":
        r.sp = r.sp.astype(float)
    one, out1 = r.go()
    mon.state(spec["algo"], r.kw.get("strategy"), rel, r.d, r.stop is None,
              r.name)
    if r.odd:
        mon.check(False, "population * (generations + 1) evaluations", det)
        return
    opt, seed, f, kw = r.make(), r.seed, r.f, {}
    box, stop = r.sp, r.stop
    k = 1.0
    if rel == "used":
        opt = r.opt
        other = Run(rng, spec["algo"], d=int(rng.integers(1, 6)))
        other.go(opt=opt)
        mon.event("reused objects")
    elif rel == "print":
        kw = dict(print_info=True)
        mon.event("printed runs")
    elif rel == "shift":
        c = float(rng.choice([-7, 1, 1000, -65536]))
        f = lambda X, *a: r.f(X, *a) + c                    # noqa: E731
        r.stop = None if stop is None else stop + c
        mon.event("shifted objectives")
    elif rel == "scale":
        c = 2.0**int(rng.choice([rng.integers(-20, 20),
                               rng.integers(-120, 120)]))
        f = lambda X, *a: r.f(X, *a) * c                    # noqa: E731
        r.stop = None if stop is None else stop * c
        mon.event("scaled objectives")
    elif rel == "stretch":
        k = 2.0**int(rng.integers(-10, 10))
        f = lambda X, *a: r.f(X / k, *a)                    # noqa: E731
        r.sp = box * k
        mon.event("stretched boxes")
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        two, out2 = r.go(opt=opt, f=f, **kw)
    what = {"shift": "adding a constant changes nothing in the search",
            "scale": "a positive factor changes nothing in the search",
            "stretch": "a stretched box stretches the search"}.get(
                rel, "the same seed gives the same search")
    Y, W = same(mon, one, two, what, det, k)
    if rel in ("same", "used", "print"):
        mon.same(Y, W, "the same seed gives the same responses", det)
        mon.same(out1[1], out2[1], "the same seed gives the same best", det)
        mon.same(out1[2], out2[2], "the same seed gives the same best", det)
        mon.same(np.asarray(out1[0]["best_y_historical"]), np.asarray(
            out2[0]["best_y_historical"]), "the same seed gives the same "
            "history", det)
    mon.event("repeated runs")
    r.sp, r.stop = box, stop
    # another seed gives another search
    three, _ = r.go(seed=seed + 1)
    if r.pop * r.d > 2:
        mon.check(not np.array_equal(one.X[0], three.X[0]),
                  "another seed gives another search", det)
        mon.event("other seeds")


def quad(spec, mon, rng):
    d, algo = spec["d"], spec["algo"]
    sp = space(rng, d).astype(float)
    w = sp[:, 1] - sp[:, 0]
    corner = rng.random() < .3
    c = rng.integers(0, 2, d).astype(float) if corner else rng.uniform(
        .02, .98, d)
    Q, _ = np.linalg.qr(rng.normal(size=(d, d)))
    H = Q @ np.diag(10**rng.uniform(0, 1, d)) @ Q.T
    off = float(rng.normal() * 10)

    def f(X):
        u = (np.asarray(X, float) - sp[:, 0]) / w - c
        return np.einsum("ij,jk,ik->i", u, H, u) + off

    opt = PSO(40, 100) if algo == "PSO" else DE(40, 100, strategy=algo)
    res, y, x = opt.run_optimizer(f, num_dim=d, design_space=sp)
    gap = float(np.abs((np.ravel(x) - sp[:, 0]) / w - c).max())
    mon.check(0 <= gap <= 1, "ends inside the box",
              f"{algo} d={d} corner {corner}: {gap} of the box")
    mon.event("convergence runs")
    mon.event("corner minimizers", int(corner))
    mon.event(f"{algo} d={d} runs")
    mon.event(f"{algo} d={d} runs farther than usual",
              int(gap > USUAL[algo][d - 1][int(corner)]))
    mon.event(f"{algo} d={d} runs far away",
              int(gap > FAR[algo][d - 1][int(corner)]))
    mon.state(algo, d, corner)
    mon.sample = dict(algo=algo, d=d, corner=corner, gap=gap)


def finish(counts):
    """about 1 % of the runs end farther away than usual"""
    for algo in FAR:
        n = sum(counts[f"{algo} d={d} runs"] for d in range(1, 6))
        k = sum(counts[f"{algo} d={d} runs farther than usual"]
                for d in range(1, 6))
        if k > 4 + .08 * n:
            yield (f"{algo}: {k} of {n} runs on convex quadratics end farther "
                   "from the minimizer than 99 % of the runs should")
        k = sum(counts[f"{algo} d={d} runs far away"] for d in range(1, 6))
        if k > 3 + .02 * n:
            yield (f"{algo}: {k} of {n} runs on convex quadratics end far "
                   "from the minimizer")
