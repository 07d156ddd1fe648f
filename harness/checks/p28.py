"""P28: single-fidelity Bayesian optimization keeps exact books"""
import numpy as np

from harness.bo import (BayesUnConsOpt, Log, Proposer, SFProblem, SFScripted,
                        Watch, achieved, kept, objective, snap_sf, surely)
from harness.gen import R, space
from mfpml.optimization.sf_uncons_acqusitions import EI, LCB, PI

RULE = ("a case runs one or two consecutive optimizations with a recording "
        "problem and a recording acquisition (scripted proposals of several "
        "shapes, or a real acquisition function) and replays the event log; "
        "non-trivial: each (objective, acquisition, dimension, new best or "
        "not, consecutive runs)")
MIN = {"iterations replayed": 350, "new bests": 60, "not better": 150,
       "second runs": 30, "real acquisitions": 8, "ties with the best": 10,
       "long runs": 3}


def cases(tier, rng):
    m = 3 if tier == "quick" else 30
    return ([dict(kind="script") for _ in range(90 * m)]
            + [dict(kind="real") for _ in range(14 * m)]
            + [dict(kind="long") for _ in range(2 * m)])


def run(spec, mon):
    rng = R(spec)
    d = int(rng.integers(1, 3 if spec["kind"] == "real" else 4))
    sp = space(rng, d)
    log = Log()
    name, f = objective(rng, sp)
    opt = None if rng.random() < .5 else float(rng.normal())
    P = SFProblem(log, sp.copy(), f, opt)
    if spec["kind"] == "real":
        acq = Watch([LCB, EI, PI][int(rng.integers(3))], log)
        mon.event("real acquisitions")
    else:
        acq = SFScripted(Proposer(rng, sp, log))
    n0 = int(rng.integers(3, 9))
    long = spec["kind"] == "long"
    if long and rng.random() < .5:      # of the start or of the run
        n0 = int(rng.integers(30, 90))
    verbose = bool(rng.random() < .4)
    b = BayesUnConsOpt(problem=P, acquisition=acq, num_init=n0,
                       verbose=verbose, seed=int(rng.integers(1000)))
    det = f"{spec} {name} d={d} init {n0} verbose {verbose}"
    judge(mon, b, P, log, n0, sp, None, det)
    for r in range(1 + int(rng.random() < .5 and not long)):
        k = int(rng.integers(1, 6 if spec["kind"] == "script" else 3))
        if long:
            k = max(4, int(rng.integers(45, 75)) - n0)
            mon.event("long runs")
        q0 = len(log.queries())
        ret = b.run_optimizer(max_iter=k, stopping_error=0.0)
        if opt is None:
            mon.check(len(log.queries()) - q0 == k, "all iterations are "
                      "made", f"{len(log.queries()) - q0} of {k}; {det}")
        judge(mon, b, P, log, n0, sp, ret, f"run {r + 1} of {k}; {det}")
        if r:
            mon.event("second runs")
    mon.event("iterations replayed", len(log.queries()))
    mon.state(spec["kind"], name, d, n0, r, verbose)


def judge(mon, b, P, log, n0, sp, ret, det):
    X, Y = log.rows("f")
    kinds = [e[0] for e in log]
    Q = log.queries()
    want = ["f"] * n0 + ["query", "f"] * len(Q)
    if not mon.check(kinds == want, "one evaluation per iteration after the "
                     "initial design", f"{kinds}; {det}"):
        return
    mon.check(len(np.unique(X[:n0], axis=0)) == n0 and (
        (X[:n0] >= sp[:, 0]) & (X[:n0] <= sp[:, 1])).all(),
        "the initial design is in the domain", det)
    mon.same(P.input_domain, sp, "the domain is not modified", det)
    mon.same(b.sample, X, "samples are the evaluated points", det)
    mon.same(np.reshape(b.response, (-1, 1)), Y, "responses are the "
             "evaluated values", det)
    for i, q in enumerate(Q):
        n = n0 + i
        mon.same(X[n], q["x"], "the proposed point is evaluated",
                 f"iteration {i + 1}; {det}")
        trained(mon, q["models"][0], X[:n], Y[:n], f"iteration {i + 1}; "
                f"{det}")
    trained(mon, snap_sf(b.surrogate), X, Y, f"at the end; {det}")
    kept(mon, b, det, init_sample=X[:n0], init_response=Y[:n0])
    mon.event("surrogates asked at their data")
    mon.event("unsure surrogates", surely(b.surrogate.predict,
                                           X, Y))
    hist(mon, b, X, Y, n0, len(Q), det)
    if ret is not None:
        mon.check(ret[0] == b.best and np.array_equal(
            np.ravel(ret[1]), np.ravel(b.best_x)),
            "the final best is returned", f"{ret}; {det}")


def trained(mon, s, X, Y, det):
    mon.same(s["X"], X, "the surrogate is trained on all points", det)
    mon.same(s["Y"], Y, "the surrogate is trained on all responses", det)
    # a noise-free surrogate reproduces its data
    sd = float(Y.std())
    e = float(np.abs(s["pred"] - Y).max())
    mon.event("surrogates judged")
    mon.event("surrogates off their data", int(not e <= .05 * sd))


def hist(mon, b, X, Y, n0, n, det):
    y = Y.ravel()
    low = np.minimum.accumulate(y)[n0 - 1:]
    H = np.asarray(b.history_best, float).ravel()
    if mon.check(len(H) == n + 1 and len(b.history_best_x) == n + 1,
                 "one history entry per iteration and the start",
                 f"{len(H)}, {len(b.history_best_x)} after {n}; {det}"):
        mon.same(H, low, "the history is the running best", det)
        for i in range(n + 1):
            achieved(mon, X[:n0 + i], Y[:n0 + i], low[i],
                     b.history_best_x[i], "history points have the history "
                     "values", f"entry {i}; {det}")
    mon.check(b.best == low[-1], "the best is the minimum so far",
              f"{b.best} {low[-1]}; {det}")
    achieved(mon, X, Y, low[-1], b.best_x, "the best point has the best "
             "value", det)
    for i in range(n):
        v = y[n0 + i]
        mon.event("new bests" if v < low[i] else "not better")
        mon.event("ties with the best", int(v == low[i]))


def finish(n):
    k = n["surrogates judged"]
    if n["surrogates off their data"] > .1 * k + 3:
        yield (f"surrogates do not reproduce their data: "
               f"{n['surrogates off their data']} of {k}")
    k = n["surrogates asked at their data"]
    if n["unsure surrogates"] > .3 * k + 3:
        yield (f"surrogates of noise-free responses are unsure of their "
               f"data: {n['unsure surrogates']} of {k}")
