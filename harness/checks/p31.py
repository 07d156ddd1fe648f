"""P31: Bayesian optimization stops exactly when its criteria say so"""
from fractions import Fraction

import numpy as np

from harness.bo import (BayesConsOpt, BayesUnConsOpt, ConsScripted, Log,
                        MFProblem, MFScripted, Proposer, SFProblem,
                        SFScripted, SURROGATES, Script, mfUnConsBayesOpt)
from harness.gen import R, Smooth, lhs, space

RULE = ("a case runs one to three consecutive optimizations of a scripted "
        "black box whose values cross (or hit exactly) the threshold at "
        "chosen moments, and recomputes the decision after every iteration "
        "from the log; non-trivial: each (optimizer, kind of optimum, reason "
        "to stop, exact hit, run number)")
MIN = {"runs judged": 150, "stopped by the error": 30,
       "stopped by the budget": 30, "no iteration at all": 15,
       "error exactly the threshold": 10, "optimum zero": 15,
       "optimum negative": 15, "optimum unknown": 15, "later runs": 40,
       "infinite errors": 3, "optimum close to zero": 8,
       "optimum far from zero": 8, "optimum next to nothing": 8, "default threshold": 10,
       "long runs": 3}


def cases(tier, rng):
    m = 3 if tier == "quick" else 30
    return ([dict(kind="SF") for _ in range(70 * m)]
            + [dict(kind="cons") for _ in range(30 * m)]
            + [dict(kind="MF", sur=s) for s in SURROGATES
               for _ in range(12 * m)]
            + [dict(kind=k, sur=SURROGATES[0], long=True)
               for k in ("SF", "cons", "MF") for _ in range(2 * m)])


def error(best, opt):
    if opt is None:
        return 1.0
    if opt == 0:
        return abs(best)
    return abs((best - opt) / opt)


def run(spec, mon):
    rng = R(spec)
    d = int(rng.integers(1, 3))
    sp = space(rng, d)
    log = Log()
    opt = [None, 0.0, 0, 2.0, -4.0, -1.0, .5, float(rng.normal()), 2.0**-9,
           -2.0**-7, 4096.0, float(rng.normal()) * 1e-6, -3e5,
           2.0**-int(rng.integers(27, 60)), -float(rng.random()) * 1e-9,
           float(rng.normal()) * 10.0**rng.uniform(-40, 40)][
               int(rng.integers(16))]
    ref = 1.0 if not opt else abs(opt)
    o = opt or 0.0
    # errors of the new values: dyadic steps, so that hits are exact
    e = 2.0**rng.integers(-4, 4, 80) * rng.choice([1, 1, 1.5, 3], 80)
    if rng.random() < .6:       # slowly improving
        e = np.sort(e)[::-1] * rng.choice([.75, 1, 1.25], 80)
    sign = 1 if rng.random() < .8 else rng.choice([-1, 1], 80)
    v = o + sign * e * ref
    v[1] = v[0] + ref         # not all equal: the responses are standardized
    f = Script(v)
    n0 = int(rng.integers(2, 5))
    cons = []
    if spec["kind"] == "cons":
        w = rng.choice([-1., 0., .5, 2.], 80, p=[.35, .2, .25, .2])
        w[0], w[1] = .5, 1.
        cons = [Script(w)]
        P = SFProblem(log, sp.copy(), f, opt, cons)
        b = BayesConsOpt(problem=P, acquisition=ConsScripted(Proposer(
            rng, sp, log)), num_init=n0, seed=int(rng.integers(1000)),
            verbose=bool(rng.random() < .4))
    elif spec["kind"] == "SF":
        P = SFProblem(log, sp.copy(), f, opt)
        b = BayesUnConsOpt(problem=P, acquisition=SFScripted(Proposer(
            rng, sp, log)), num_init=n0, seed=int(rng.integers(1000)),
            verbose=bool(rng.random() < .4))
    else:
        lf = Smooth(rng, sp)
        n0 = max(n0, 3)
        P = MFProblem(log, sp.copy(), f, lf, opt)
        b = mfUnConsBayesOpt(
            problem=P, acquisition=MFScripted(Proposer(rng, sp, log), .35),
            num_init=[n0, n0 + int(rng.integers(0, 4))],
            surrogate_name=spec["sur"], seed=int(rng.integers(1000)),
            verbose=bool(rng.random() < .4))
    long = "long" in spec
    for r in range(1 if long else int(rng.integers(1, 4))):
        if r and rng.random() < .3:     # the optimum becomes known or not
            opt = [None, 0.0, -4.0, 2.0][int(rng.integers(4))]
            P.optimum = opt
        k = int(rng.integers(14, 32) if long else rng.integers(5))
        stop = float(rng.choice([0, .25, .5, 1.0, 2.0, 2.0**rng.integers(
            -4, 3), 10.0**rng.uniform(-2, 1)]))
        if long and rng.random() < .7:
            stop = float(e.min()) * .5
            mon.event("long runs")
        now = track(log, spec["kind"])
        if rng.random() < .25 and not long and np.isfinite(now[-1]):
            stop = float(error(now[-1], opt))   # exactly where it stands
        kw = dict(stopping_error=stop)
        if rng.random() < .2 and not long:
            kw, stop = {}, 1.0
            mon.event("default threshold")
        if spec["kind"] == "MF" and rng.random() < .5:
            kw["cost_ratio"] = 2.0
        q0 = len(log.queries())
        b.run_optimizer(max_iter=k, **kw)
        done = len(log.queries()) - q0
        seq = track(log, spec["kind"])[-(done + 1):]
        judge(mon, spec, seq, opt, k, stop, done, r)


def track(log, kind):
    """best after the initial design and after every iteration"""
    out = []
    y, c = [], []
    name = "hf" if kind == "MF" else "f"
    first = True
    for ev in log:
        if ev[0] == "query":
            if first:
                out.append(None)
                first = False
            out[-1] = best(y, c, kind)
            out.append(None)
        elif ev[0] == name:
            y.append(float(ev[2][0, 0]))
        elif ev[0] == "cons":
            c.append(bool((ev[2] <= 0).all()))
    if first:
        out.append(None)
    out[-1] = best(y, c, kind)
    return out


def best(y, c, kind):
    if kind == "cons":
        y = [a for a, k in zip(y, c) if k]
    return min(y) if y else np.inf


def judge(mon, spec, seq, opt, k, stop, done, r):
    E = [error(v, opt) for v in seq]
    det = (f"{spec['kind']} run {r + 1}: optimum {opt}, threshold {stop}, "
           f"budget {k}, {done} iterations, errors {E}")
    near = [abs(q - stop) < 1e-12 * max(stop, 1e-3) for q in E]
    exact = [q == stop for q in E]
    # hits that are exact without any rounding; others prove nothing
    doubt = any(a and not (x and _exact(v, opt, stop))
                for a, x, v in zip(near, exact, seq))
    if doubt:
        return
    mon.event("runs judged")
    mon.check(done <= k, "the budget is kept", det)
    for i in range(done):
        if not mon.check(E[i] >= stop, "no iteration once the error is below "
                         "the threshold", f"iteration {i + 1}; {det}"):
            break
    mon.check(done == k or E[-1] < stop, "iterates while budget and error "
              "allow", det)
    why = "budget" if done == k else "error"
    mon.event(f"stopped by the {why}")
    mon.event("no iteration at all", int(done == 0))
    mon.event("error exactly the threshold", int(any(exact[:done])))
    mon.event("infinite errors", int(np.isinf(E[0])))
    mon.event("optimum " + ("unknown" if opt is None else "zero" if opt == 0
                            else "negative" if opt < 0 else "positive"))
    mon.event("optimum close to zero", int(bool(opt) and abs(opt) < .01))
    mon.event("optimum next to nothing", int(bool(opt) and abs(opt) < 1e-8))
    mon.event("optimum far from zero", int(bool(opt) and abs(opt) > 1000))
    if r:
        mon.event("later runs")
    mon.state(spec["kind"], opt is None or np.sign(opt), why, any(exact), r,
              done)


def _exact(v, opt, stop):
    """the error is the threshold, and any way to compute it is exact"""
    if opt is None or not np.isfinite(v):
        return True
    few = all(float(np.frexp(float(z))[0] * 2**20) % 1 == 0
              for z in (v, opt, stop))
    v, opt, stop = (Fraction(float(z)) for z in (v, opt, stop))
    return few and abs(v - opt) == stop * (abs(opt) or 1)
