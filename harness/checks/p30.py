"""P30: constrained Bayesian optimization only reports feasible bests"""
import numpy as np

from harness.bo import (BayesConsOpt, ConsScripted, Log, Proposer, SFProblem,
                        Script, Watch, kept, objective, snap_sf, surely)
from harness.checks.p28 import trained
from harness.gen import R, Smooth, lhs, space
from mfpml.optimization.sf_cons_acqusitions import CEI

RULE = ("a case runs one or two consecutive optimizations with a recording "
        "problem (one to four constraints, feasible and infeasible starts, "
        "ties, constraints exactly zero) and replays the event log; "
        "non-trivial: each (objective, constraints, feasibility pattern, "
        "acquisition, consecutive runs)")
MIN = {"iterations replayed": 150, "infeasible starts": 15,
       "feasible starts": 15, "infeasible points better than the best": 30,
       "first feasible point found": 5, "second runs": 15,
       "constraints exactly zero": 30, "real acquisitions": 4,
       "never feasible": 3, "violations of next to nothing": 20,
       "several constraints": 20, "long runs": 2}


def cases(tier, rng):
    m = 2 if tier == "quick" else 30
    return ([dict(kind="script") for _ in range(60 * m)]
            + [dict(kind="real") for _ in range(5 * m)]
            + [dict(kind="long") for _ in range(2 * m)])


def constraint(rng, sp, level):
    if rng.random() < .5:
        g = Smooth(rng, sp)
        q = float(np.quantile(g(lhs(rng, sp, 200)), level))
        return lambda X: g(X) - q
    n = 100
    v = rng.choice([-2., -1., -.5, 0., .5, 1., 3.], n)
    v[rng.random(n) < level / 2] = 0.
    v[(rng.random(n) > level) & (v <= 0)] = .25
    k = rng.random(n) < .2      # violated or satisfied by next to nothing
    v[k] = (rng.choice([-1, 1, 1], n) * 10.0**rng.uniform(-16, -4, n))[k]
    v[0], v[1] = -1 if level > .3 else 1., .5
    return Script(v)


def run(spec, mon):
    rng = R(spec)
    d = int(rng.integers(1, 3))
    sp = space(rng, d)
    log = Log()
    name, f = objective(rng, sp)
    nc = int(rng.choice([1, 1, 1, 2, 2, 3, 3, 4, 4, rng.integers(5, 12)]))
    if nc > 1:
        mon.event("several constraints")
    level = float(rng.choice([.1, .5, .9]))**(1 / nc)
    cons = [constraint(rng, sp, level) for _ in range(nc)]
    if rng.random() < .1:
        g = Smooth(rng, sp)
        low = float(g(lhs(rng, sp, 300)).min()) - 5 * g.s
        cons[0] = lambda X: g(X) - low
    n0 = int(rng.integers(3, 8))
    long = spec["kind"] == "long"
    if long and rng.random() < .5:      # of the start or of the run
        n0 = int(rng.integers(30, 60))
    if rng.random() < .25:      # nothing feasible in the initial design
        cons[0] = Script(np.concatenate([
            rng.uniform(.1, 3, n0 + int(rng.integers(0, 3))),
            rng.choice([-1., 0., .5, -3.], 40)]))
    opt = None if rng.random() < .5 else float(rng.normal())
    P = SFProblem(log, sp.copy(), f, opt, cons)
    if spec["kind"] == "real":
        acq = Watch(CEI, log)
        mon.event("real acquisitions")
    else:
        acq = ConsScripted(Proposer(rng, sp, log))
    verbose = bool(rng.random() < .4)
    det = (f"{spec} {name} d={d} constraints {nc} init {n0} verbose "
           f"{verbose}")
    b = BayesConsOpt(problem=P, acquisition=acq, num_init=n0,
                     verbose=verbose, seed=int(rng.integers(1000)))
    judge(mon, b, P, log, n0, nc, sp, None, det)
    for r in range(1 + int(rng.random() < .5 and not long)):
        k = int(rng.integers(1, 5 if spec["kind"] == "script" else 3))
        if long:
            k = max(3, int(rng.integers(42, 55)) - n0)
            mon.event("long runs")
        q0 = len(log.queries())
        ret = b.run_optimizer(max_iter=k, stopping_error=0.0)
        mon.check(len(log.queries()) - q0 == k, "all iterations are made",
                  f"{len(log.queries()) - q0} of {k}; {det}")
        judge(mon, b, P, log, n0, nc, sp, ret,
              f"run {r + 1} of {k}; {det}")
        if r:
            mon.event("second runs")
    mon.event("iterations replayed", len(log.queries()))
    # ---- what the log contained --------------------------------------------
    X, Y = log.rows("f")
    C = log.rows("cons")[1]
    ok = (C <= 0).all(1)
    mon.event("feasible starts" if ok[:n0].any() else "infeasible starts")
    mon.event("never feasible", int(not ok.any()))
    mon.event("first feasible point found", int(ok.any() and not
                                                ok[:n0].any()))
    mon.event("constraints exactly zero", int((C == 0).sum()))
    mon.event("violations of next to nothing", int((
        (C > 0) & (C < 1e-4)).sum()))
    mon.event("infeasible points better than the best", int(
        ok.any() and (Y.ravel()[~ok] <= Y.ravel()[ok].min()).sum()))
    mon.state(spec["kind"], name, nc, ok.tolist(), r, verbose)


def judge(mon, b, P, log, n0, nc, sp, ret, det):
    (X, Y), (XC, C) = log.rows("f"), log.rows("cons")
    kinds = [e[0] for e in log]
    Q = log.queries()
    start, rest = kinds[:2 * n0], kinds[2 * n0:]
    good = start.count("f") == n0 and start.count("cons") == n0 and len(
        rest) == 3 * len(Q) and all(
        rest[3 * i] == "query" and sorted(rest[3 * i + 1:3 * i + 3])
        == ["cons", "f"] for i in range(len(Q)))
    if not mon.check(good, "one evaluation of objective and constraints per "
                     "iteration after the initial design",
                     f"{kinds}; {det}"):
        return
    mon.same(XC, X, "objective and constraints are evaluated at the same "
             "points", det)
    mon.check(len(np.unique(X[:n0], axis=0)) == n0 and (
        (X[:n0] >= sp[:, 0]) & (X[:n0] <= sp[:, 1])).all(),
        "the initial design is in the domain", det)
    mon.same(P.input_domain, sp, "the domain is not modified", det)
    mon.same(b.sample, X, "samples are the evaluated points", det)
    mon.same(np.reshape(b.obj_response, (-1, 1)), Y, "objective responses "
             "are the evaluated values", det)
    mon.same(b.cons_response, C, "constraint responses are the evaluated "
             "values", det)
    R_ = [Y] + [C[:, k:k + 1] for k in range(nc)]
    for i, q in enumerate(Q):
        n = n0 + i
        at = f"iteration {i + 1}; {det}"
        mon.same(X[n], q["x"], "the proposed point is evaluated", at)
        if mon.check(len(q["models"]) == nc + 1, "one surrogate per "
                     "constraint", at):
            for s, y in zip(q["models"], R_):
                trained(mon, s, X[:n], y[:n], at)
    for s, y in zip([b.obj_surrogate] + list(b.cons_surrogates), R_):
        trained(mon, snap_sf(s), X, y, f"at the end; {det}")
    kept(mon, b, det, init_sample=X[:n0], init_obj_response=Y[:n0],
         init_cons_response=C[:n0])
    mon.event("surrogates asked at their data")
    mon.event("unsure surrogates", max(surely(s.predict, X, y) for s, y in zip(
        [b.obj_surrogate] + list(b.cons_surrogates), R_)))
    # ---- bests ------------------------------------------------------------
    ok = (C <= 0).all(1)
    H, HX = b.history_best, b.history_best_x
    if not mon.check(len(H) == len(Q) + 1 and len(HX) == len(Q) + 1,
                     "one history entry per iteration and the start",
                     f"{len(H)} {len(HX)} after {len(Q)}; {det}"):
        return
    for i in range(len(Q) + 1):
        n = n0 + i
        best(mon, H[i], HX[i], X[:n], Y[:n].ravel(), ok[:n],
             f"history entry {i}; {det}")
    best(mon, b.best, b.best_x, X, Y.ravel(), ok, det)
    if ret is not None:
        mon.check(ret[0] == b.best and (
            ret[1] is b.best_x or np.array_equal(ret[1], b.best_x)),
            "the final best is returned", f"{ret}; {det}")


def best(mon, v, x, X, y, ok, det):
    if not ok.any():
        mon.check(np.isinf(v) and v > 0 and (x is None or np.size(x) == 0),
                  "nothing feasible: the best is infinite without a point",
                  f"{v} {x}; {det}")
        return
    want = y[ok].min()
    mon.check(v == want, "the best is the smallest feasible objective",
              f"{v} {want}; {det}")
    if not mon.check(x is not None and np.size(x), "the best has a point",
                     det):
        return
    x = np.asarray(x, float).reshape(-1, X.shape[1])
    good = all(((X == r).all(1) & ok & (y == want)).any() for r in x)
    mon.check(good, "the best point is a feasible sample with the best "
              "value", lambda: f"{x.tolist()} {want}; {det}")


def finish(n):
    k = n["surrogates judged"]
    if n["surrogates off their data"] > .15 * k + 3:
        yield (f"surrogates do not reproduce their data: "
               f"{n['surrogates off their data']} of {k}")
    k = n["surrogates asked at their data"]
    if n["unsure surrogates"] > .3 * k + 3:
        yield (f"surrogates of noise-free responses are unsure of their "
               f"data: {n['unsure surrogates']} of {k}")
