"""P12: Gaussian process predictions equal the universal-kriging posterior"""
import numpy as np

from harness.gen import (BF, GP, RBF, R, EPS, RefGP, StubOptimizer, gp_data,
                         query_points, thetas, unit)

RULE = ("a case trains one Gaussian process (random data, design space, "
        "basis, noise setting; correlation parameters fixed by a scripted "
        "optimizer or found by the default search) and compares mean and "
        "variance with the dense reference at random, corner, training and "
        "near-training points; non-trivial: each (dimension, basis, noise "
        "setting, optimizer) whose reference is well conditioned")
MIN = {"points compared": 8000, "default optimizer": 40,
       "quadratic trend": 60, "noise estimated": 60, "noise given": 60,
       "noise free": 60, "many samples": 15,
       "data beyond the design space": 40}
BASES = {"ordinary": BF.Ordinary, "linear": BF.Linear,
         "quadratic": BF.Quadratic}


def cases(tier, rng):
    m = 8 if tier == "quick" else 25
    return ([dict(kind="scripted") for _ in range(700 * m)]
            + [dict(kind="default") for _ in range(120 * m)])


def run(spec, mon):
    rng = R(spec)
    default = spec["kind"] == "default"
    d = int(rng.integers(1, 4 if default else 7))
    regr = str(rng.choice(list(BASES)))
    if not default and regr != "quadratic" and rng.random() < .05:
        d = int(rng.integers(7, 21))
    p = dict(ordinary=1, linear=d + 1,
             quadratic=(d + 1) * (d + 2) // 2)[regr]
    n = p + int(rng.integers(3, 12 if default else 25))
    if rng.random() < (.02 if default else .06):
        n = p + int(rng.integers(40, 130 if rng.random() < .8 else 450))
        mon.event("many samples")
    mode = str(rng.choice(["noise free", "noise given", "noise estimated"]))
    sp, f, X, y = gp_data(rng, d, n, noise=0 if mode == "noise free"
                          else .1 * rng.random())
    if rng.random() < .12:      # some of the data beyond the design space
        k = int(rng.integers(1, n // 2 + 1))
        X[-k:] = sp.mean(1) + float(rng.uniform(1.1, 2)) * (
            X[-k:] - sp.mean(1))
        mon.event("data beyond the design space")
    if mode != "noise free" and not default and rng.random() < .3:
        X[1] = X[0]             # replicated measurement
    s = 0.0 if mode == "noise free" else float(10**rng.uniform(-2, -.3))
    prior = dict([("noise free", 0.0), ("noise given", s * y.std()),
                  ("noise estimated", None)])[mode]
    kw = {}
    if regr != "ordinary" or rng.random() < .5:
        kw["regr"] = BASES[regr]()
    if rng.random() < .4:
        kw["kernel"] = RBF(np.zeros(d), bounds=[-2.5, 2.8])
    yin = y.ravel().copy() if rng.random() < .2 else y.copy()
    det = f"d={d} n={n} {regr} {mode} {'default' if default else 'scripted'}"
    if default:
        m = GP(sp.copy(), noise_prior=prior, optimizer_restart=int(
            rng.integers(0, 3)), **kw)
        m.train(X.copy(), yin)
        th, noise = np.ravel(m.kernel.param), float(m.noise)
        mon.event("default optimizer")
    else:
        t = thetas(rng, unit(X, sp), noise=s)
        ans = np.append(t, s) if prior is None else t
        m = GP(sp.copy(), noise_prior=prior, optimizer=StubOptimizer([ans]),
               **kw)
        m.train(X.copy(), yin)
        th, noise = 10.0**t, s * float(y.std())
        mon.close(np.ravel(m.kernel.param), th, 1e-12 * th,
                  "the model uses the chosen correlation parameters", det)
        mon.close(float(m.noise), noise, 1e-12 * noise,
                  "noise is in the units of the response", det)
    ref = RefGP(sp, X, y, th, noise, regr)
    if 400 * ref.cond * EPS > 1e-3:
        mon.event("ill-conditioned fits not compared")
        return
    mon.event(mode)
    if regr == "quadratic":
        mon.event("quadratic trend")
    mon.state(d, regr, mode, default)
    for Q in (query_points(rng, sp, X), query_points(rng, sp, X)[:1],
              X[: max(1, n // 2)]):
        mean, std = m.predict(Q.copy(), return_std=True)
        rm, rv = ref.predict(Q)
        tm, tv = ref.tols()
        mon.close(mean, rm, tm, "predicted mean", det)
        mon.close(np.asarray(std)**2, np.maximum(rv, 0), tv,
                  "predicted variance", det)
        mon.check((np.asarray(std) >= 0).all(), "std is a square root", det)
        mon.close(m.predict(Q.copy()), rm, tm,
                  "predicted mean without std", det)
        mon.event("points compared", len(Q))
    if mon.sample is None:
        mon.sample = dict(d=d, n=n, regr=regr, mode=mode, cond=ref.cond,
                          mean=float(mean[0, 0]), ref=float(rm[0, 0]))
