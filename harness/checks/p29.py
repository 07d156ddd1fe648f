"""P29: multi-fidelity Bayesian optimization keeps exact books per fidelity"""
import numpy as np

from harness.bo import (Log, MFProblem, MFScripted, Proposer, SURROGATES,
                        Script, Watch, achieved, kept, mfUnConsBayesOpt, snap_mf,
                        surely, values)
from harness.gen import R, Smooth, space
from mfpml.optimization.mf_acqusitions import (AugmentedEI, ExtendedPI, VFEI,
                                               VFLCB)

RULE = ("a case runs one or two consecutive optimizations with a recording "
        "problem and a recording acquisition (scripted points and "
        "fidelities, or a real acquisition function) and replays the event "
        "log; non-trivial: each (surrogate, objective, fidelity pattern, new "
        "best or not, consecutive runs)")
MIN = {"iterations replayed": 150, "new bests": 20, "high fidelity": 50,
       "low fidelity": 50, "second runs": 15, "real acquisitions": 6,
       "low-fidelity values below the best": 10, "unknown surrogates": 5,
       "long runs": 3}


def cases(tier, rng):
    m = 3 if tier == "quick" else 25
    return ([dict(kind="script", sur=s) for s in SURROGATES
             for _ in range(20 * m)]
            + [dict(kind="real", sur=s) for s in SURROGATES
               for _ in range(4 * m)]
            + [dict(kind="long", sur=s) for s in SURROGATES
               for _ in range(m)])


def pair(rng, sp):
    k = str(rng.choice(["smooth", "ties", "falling", "rising", "noise",
                        "close"]))
    if k == "smooth":
        lf = Smooth(rng, sp)
        g = Smooth(rng, sp, scale=.3 * lf.s)
        return k, (lambda X: 1.5 * lf(X) + g(X)), lf
    # the low fidelity often lies far below
    v = values(rng, 100, k)
    return k, Script(v), Script(values(rng, 100, k) - float(
        rng.choice([0, 0, 50])))


def run(spec, mon):
    rng = R(spec)
    d = int(rng.integers(1, 3))
    sp = space(rng, d)
    log = Log()
    name, hf, lf = pair(rng, sp)
    opt = None if rng.random() < .5 else float(rng.normal())
    P = MFProblem(log, sp.copy(), hf, lf, opt)
    p = float(rng.choice([0, .5, .5, .5, 1]))
    if spec["kind"] == "real":
        A = [VFLCB, AugmentedEI, ExtendedPI]
        if spec["sur"] == "HierarchicalKriging":
            A += [VFEI, VFEI]
        acq = Watch(A[int(rng.integers(len(A)))], log, mf=True)
        mon.event("real acquisitions")
    else:
        acq = MFScripted(Proposer(rng, sp, log), p)
    nh = int(rng.integers(3, 6))
    n0 = [nh, nh + int(rng.integers(0, 5))]
    long = spec["kind"] == "long"
    if long and rng.random() < .5:      # of the start or of the run
        n0 = [int(rng.integers(20, 40)), int(rng.integers(40, 80))]
    init = list(n0)
    verbose = bool(rng.random() < .4)
    det = f"{spec} {name} d={d} init {n0} verbose {verbose}"
    b = mfUnConsBayesOpt(problem=P, acquisition=acq, num_init=init,
                         surrogate_name=spec["sur"], verbose=verbose,
                         seed=int(rng.integers(1000)))
    judge(mon, b, P, log, n0, sp, [], det)
    ratios = []
    for r in range(1 + int(rng.random() < .5 and not long)):
        k = int(rng.integers(1, 5 if spec["kind"] == "script" else 3))
        if long:
            k = max(3, int(rng.integers(30, 55)) - sum(n0))
            mon.event("long runs")
        cr = float(rng.choice([1, 2, 5, 10]))
        q0 = len(log.queries())
        b.run_optimizer(max_iter=k, cost_ratio=cr, stopping_error=0.0)
        done = len(log.queries()) - q0
        mon.check(done == k, "all iterations are made", f"{done} of {k}; "
                  f"{det}")
        ratios += [cr] * done
        judge(mon, b, P, log, n0, sp, ratios, f"run {r + 1} of {k}; {det}")
        if r:
            mon.event("second runs")
    mon.check(init == n0, "the caller's counts are not modified", det)
    mon.event("iterations replayed", len(ratios))
    mon.state(spec["kind"], spec["sur"], name, d, p, r, verbose)
    if rng.random() < .3:
        mon.raises(ValueError, lambda: mfUnConsBayesOpt(
            problem=P, acquisition=acq, num_init=list(n0),
            surrogate_name=str(rng.choice(["Kriging", "", "CK"])),
            seed=1), "unknown surrogates are refused")
        mon.event("unknown surrogates")


def judge(mon, b, P, log, n0, sp, ratios, det):
    XY = [log.rows("hf"), log.rows("lf")]
    kinds = [e[0] for e in log]
    Q = log.queries()
    want = []
    for q in Q:
        want += ["query", ("hf", "lf")[q["fid"]]]
    start = kinds[:sum(n0)]
    if not mon.check(kinds[sum(n0):] == want and start.count("hf") == n0[0]
                     and start.count("lf") == n0[1], "one evaluation of the "
                     "proposed fidelity per iteration after the initial "
                     "design", f"{kinds}, {want}; {det}"):
        return
    fids = [q["fid"] for q in Q]
    mon.check([int(f) for f in b.fidelity_query_order] == fids,
              "the fidelity order is recorded",
              f"{b.fidelity_query_order} {fids}; {det}")
    mon.same(P.input_domain, sp, "the domain is not modified", det)
    for k in (0, 1):
        X, Y = XY[k]
        mon.check(len(np.unique(X[:n0[k]], axis=0)) == n0[k] and (
            (X[:n0[k]] >= sp[:, 0]) & (X[:n0[k]] <= sp[:, 1])).all(),
            "the initial design is in the domain", det)
        mon.same(b.sample[k], X, "samples of each fidelity are the "
                 "evaluated points", f"fidelity {k}; {det}")
        mon.same(np.reshape(b.response[k], (-1, 1)), Y, "responses of each "
                 "fidelity are the evaluated values", f"fidelity {k}; {det}")
    kept(mon, b, det, init_sample=[XY[k][0][:n0[k]] for k in (0, 1)],
         init_response=[XY[k][1][:n0[k]] for k in (0, 1)])
    mon.event("surrogates asked at their data")
    mon.event("unsure surrogates", max(
        surely(b.surrogate.predict_lf, *XY[1]),
        surely(b.surrogate.predict, *XY[0])
        if b.surrogate_name != "ScaledKriging" else 0))
    n = list(n0)
    yh = XY[0][1].ravel()
    best = yh[:n[0]].min()
    H = np.asarray(b.history_best, float).ravel()
    full = mon.check(len(H) == len(Q) + 1 and len(b.history_best_x)
                     == len(Q) + 1, "one history entry per iteration and "
                     "the start", f"{len(H)} after {len(Q)}; {det}")
    if full:
        mon.check(H[0] == best, "the history is the running best of the "
                  "high fidelity", f"{H[0]} {best}; {det}")
        achieved(mon, XY[0][0][:n[0]], yh[:n[0]], best, b.history_best_x[0],
                 "history points have the history values", det)
    for i, q in enumerate(Q):
        at = f"iteration {i + 1}; {det}"
        mon.check(q["cost_ratio"] == ratios[i], "the given cost ratio is "
                  "used", f"{q['cost_ratio']} {ratios[i]}; {at}")
        mon.check(q["fmin"] == best, "the current best is handed to the "
                  "acquisition", f"{q['fmin']} {best}; {at}")
        trained(mon, q["model"], XY, n, at)
        k = q["fid"]
        mon.same(XY[k][0][n[k]], q["x"], "the proposed point is evaluated",
                 at)
        v = float(XY[k][1][n[k], 0])
        n[k] += 1
        if k == 0:
            mon.event("new bests" if v < best else "not better")
            best = min(best, v)
            mon.event("high fidelity")
        else:
            mon.event("low-fidelity values below the best", int(v < best))
            mon.event("low fidelity")
        if full:
            mon.check(H[i + 1] == best, "the history is the running best of "
                      "the high fidelity", f"{H[i + 1]} {best}; {at}")
            achieved(mon, XY[0][0][:n[0]], yh[:n[0]], best,
                     b.history_best_x[i + 1], "history points have the "
                     "history values", at)
    trained(mon, snap_mf(b.surrogate), XY, n, f"at the end; {det}")
    mon.check(b.best == best, "the best is the minimum of the high fidelity",
              f"{b.best} {best}; {det}")
    achieved(mon, XY[0][0], yh, best, b.best_x, "the best point has the best "
             "value", det)


def trained(mon, s, XY, n, det):
    for k, z in enumerate("hl"):
        mon.same(s["X" + z], XY[k][0][:n[k]], "the surrogate is trained on "
                 "all points", f"fidelity {k}; {det}")
        mon.same(s["Y" + z], XY[k][1][:n[k]], "the surrogate is trained on "
                 "all responses", f"fidelity {k}; {det}")
    Y = XY[0][1][:n[0]]
    e = float(np.abs(s["pred"] - Y).max())
    mon.event("surrogates judged")
    mon.event("surrogates off their data", int(not e <= .05 * Y.std()))


def finish(n):
    k = n["surrogates judged"]
    if n["surrogates off their data"] > .2 * k + 3:
        yield (f"surrogates do not reproduce their data: "
               f"{n['surrogates off their data']} of {k}")
    k = n["surrogates asked at their data"]
    if n["unsure surrogates"] > .3 * k + 3:
        yield (f"surrogates of noise-free responses are unsure of their "
               f"data: {n['unsure surrogates']} of {k}")
