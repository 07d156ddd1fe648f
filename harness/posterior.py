"""Comparison of a multi-fidelity surrogate with its dense reference"""
import numpy as np

from harness.gen import R, query_points
from harness.surr import Case


def posterior_cases(tier, kind):
    m = 8 if tier == "quick" else 30
    return ([dict(kind=kind, default=False) for _ in range(500 * m)]
            + [dict(kind=kind, default=True) for _ in range(90 * m)])


def posterior_run(spec, mon):
    rng = R(spec)
    kind, default = spec["kind"], spec["default"]
    nested = rng.random() < .4
    kw = {}
    if rng.random() < .3:
        kw["nl"], kw["nh"] = int(rng.integers(5, 9)), int(rng.integers(5, 8))
        if not nested and rng.random() < .5:        # more high than low
            kw["nh"] += 6
    d = int(rng.integers(1, 4 if kw else 6))
    if not kw and not default and rng.random() < .04:
        d = int(rng.integers(6, 13))
    c = Case(rng, kind, d=d, default=default, nested=nested,
             restart=int(rng.integers(0, 2)), **kw)
    m = c.fit()
    det = (f"{kind} d={d} {c.mode} default={default} nested={nested} "
           f"nh={len(c.X[0])} nl={len(c.X[1])} rho={c.rho}")
    if default:
        mon.event("default optimizer")
    else:
        # the scripted parameters are the ones used
        th, tl = [10.0**t for t in c.th]
        mon.close(np.ravel(m.kernel.param), th, 1e-12 * th,
                  "scripted high-fidelity parameters", det)
        mon.close(np.ravel(m.lfGP.kernel.param), tl, 1e-12 * tl,
                  "scripted low-fidelity parameters", det)
        nz = c.s * float(c.Y[0].std())
        unit = float(c.Y[0].std()) if kind == "CK" else 1.0
        mon.close(float(m.noise) * unit, nz, 1e-12 * nz + 0.0,
                  "noise of the high fidelity", det)
        if kind == "CK":
            mon.close(float(np.ravel(m.rho)[0]), c.rho, 1e-12 * c.rho,
                      "scripted scale factor", det)
    ref = c.ref(m)
    n = 0
    for Q in (query_points(rng, c.sp, c.X[0]), c.X[0], c.X[1][:6],
              query_points(rng, c.sp, c.X[1])[:1]):
        mean, std = m.predict(Q.copy(), return_std=True)
        rm, rv, tm, tv = ref.predict(Q)
        if np.max(tm) < 1e-2 * c.Y[0].std():
            mon.close(mean, rm, tm, "high-fidelity mean", det)
            mon.close(m.predict(Q.copy()), rm, tm,
                      "high-fidelity mean without std", det)
            if np.max(tv) < 1e-2 * c.Y[0].var():
                mon.close(np.asarray(std)**2, np.maximum(rv, 0), tv,
                          "high-fidelity variance", det)
            n += len(Q)
            mon.state(kind, d, c.mode, default, nested)
        mean, std = m.predict_lf(Q.copy(), return_std=True)
        rm, rv, tm, tv = ref.predict_lf(Q)
        if np.max(tm) < 1e-2 * c.Y[1].std():
            mon.close(mean, rm, tm, "low-fidelity mean", det)
            mon.close(m.predict_lf(Q.copy()), rm, tm,
                      "low-fidelity mean without std", det)
            if np.max(tv) < 1e-2 * c.Y[1].var():
                mon.close(np.asarray(std)**2, np.maximum(rv, 0), tv,
                          "low-fidelity variance", det)
            mon.event("low-fidelity points compared", len(Q))
    if n:
        mon.event("points compared", n)
        mon.event("noise " + c.mode)
        mon.sample = dict(case=det, cond=ref.cond)
