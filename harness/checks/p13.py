"""P13: noise-free surrogates interpolate and report sane uncertainty"""
import numpy as np

from harness.gen import NUG, R, query_points
from harness.surr import KINDS, Case

RULE = ("a case trains one surrogate (four kinds; scripted or default search; "
        "noise zero, given or estimated; nested or separate designs) and "
        "judges predictions at the training points, near them, at corners and "
        "at random points of the space; non-trivial: each (surrogate, noise "
        "setting, optimizer, dimension) with a usable residual limit")
MIN = {"interpolation judged": 400, "noise floor judged": 400,
       "low-fidelity interpolation judged": 250, "stress fits": 80,
       "default optimizer": 150}


def cases(tier, rng):
    m = 5 if tier == "quick" else 30
    out = []
    for k in KINDS:
        out += [dict(kind=k, default=False) for _ in range(220 * m)]
        out += [dict(kind=k, default=True) for _ in range(60 * m)]
        out += [dict(kind=k, default=True, stress=True)
                for _ in range(25 * m)]
    return out


def run(spec, mon):
    rng = R(spec)
    kind = spec["kind"]
    stress = spec.get("stress", False)
    kw = {}
    mode = str(rng.choice(["free", "free", "given", "est"]))
    if stress:              # many close points, badly conditioned fits
        mode = "free" if rng.random() < .7 else mode
        kw = dict(d=int(rng.integers(1, 3)), nl=int(rng.integers(25, 45)),
                  nh=int(rng.integers(12, 25)))
        mon.event("stress fits")
    c = Case(rng, kind, mode=mode, default=spec["default"],
             nested=rng.random() < .5, restart=int(rng.integers(0, 2)),
             regr=True, **kw)
    if spec["default"]:
        mon.event("default optimizer")
    det = f"{kind} {c.regr} d={c.d} {mode} default={c.default} stress={stress}"
    m = c.fit()
    ref = c.ref(m)
    sd = float(c.Y[0].std())
    Q = np.vstack([query_points(rng, c.sp, c.X[0]), c.X[0],
                   c.X[-1][:5], c.X[-1][:3] * (1 + 1e-12)])
    mean, std = m.predict(Q.copy(), return_std=True)
    pairs = [("", mean, std, np.ravel(m.predict(Q[:1].copy())).shape)]
    if kind != "GP":
        ml, sl = m.predict_lf(Q.copy(), return_std=True)
        pairs.append(("lf", ml, sl,
                      np.ravel(m.predict_lf(Q[:1].copy())).shape))
    for lab, a, b, one in pairs:
        mon.check(np.shape(a) == (len(Q), 1) and np.shape(b) == (len(Q), 1)
                  and one == (1,), "one row per point",
                  f"{np.shape(a)} {np.shape(b)} {one} {det}{lab}")
        mon.check(np.isfinite(a).all() and np.isfinite(b).all(),
                  "predictions are finite", det + lab)
        mon.check((np.asarray(b) >= 0).all(), "std is non-negative",
                  det + lab)
    # the noise floor
    if mode != "free":
        _, _, _, tv = ref.predict(Q)
        fl = ref.noise
        if mode == "given":
            fl = c.prior
        mon.check((np.asarray(std)**2 >= fl**2 - tv).all() if np.size(tv) == 1
                  else (np.asarray(std)**2 >= fl**2 - np.max(tv)).all(),
                  "std is nowhere below the noise",
                  lambda: f"{np.min(std)} < {fl} {det}")
        mon.event("noise floor judged")
        if kind != "GP":
            fll = c.prior if mode == "given" else (
                float(m.lfGP.noise) * (sd if kind == "CK" else 1))
            tvl = ref.predict_lf(Q)[3]
            mon.check((np.asarray(sl)**2 >= fll**2 - np.max(tvl)).all(),
                      "low-fidelity std is nowhere below the noise", det)
        return
    # interpolation: the nugget leaves a residual of nugget * weights
    if kind == "GP" or kind == "HK":
        g, s2, u = ref.hf.k.gamma, ref.hf.k.sigma2, ref.hf.sd
    elif kind == "SK":
        g, s2, u = ref.hf.k.gamma, ref.hf.k.sigma2, ref.hf.sd
    else:
        # both nuggets of the joint matrix act on the high-fidelity rows
        r = ref.hf
        g = r.w * (1 + r.s2d + r.rho**2 * r.s2l + r.s2l)
        s2, u = r.s2d + r.rho**2 * r.s2l, r.sd
    tm, tv = [np.max(t) for t in ref.predict(c.X[0])[2:]]
    lim = 5 * NUG * np.abs(g).max() * u + tm
    vlim = 50 * NUG * (s2 + 1) * u**2 + tv
    if lim < 1e-2 * sd:
        mon.close(m.predict(c.X[0].copy()), c.Y[0], lim,
                  "training responses are reproduced", det)
        mon.event("interpolation judged")
        mon.state(kind, c.regr, mode, c.default, c.d, stress)
        at = c.X[0]
        if kind == "SK":
            at = np.array([x for x in c.X[0]
                           if (c.X[1] == x).all(1).any()]).reshape(-1, c.d)
            tvl = np.max(ref.predict_lf(c.X[1])[3])
            vlim += ref.rho**2 * (50 * NUG * (ref.low.k.sigma2 + 1)
                                  * ref.low.sd**2 + tvl)
        if vlim < 1e-2 * sd**2 and len(at):
            s = m.predict(at.copy(), return_std=True)[1]
            mon.close(np.asarray(s)**2, np.zeros((len(at), 1)), vlim,
                      "std is about zero at training points", det)
            mon.event("zero std judged")
    if kind != "GP":
        k, u = (ref.hf.lf, ref.hf.sd) if kind == "CK" else (
            ref.low.k, ref.low.sd)
        tm, tv = [np.max(t) for t in ref.predict_lf(c.X[1])[2:]]
        lim = 5 * NUG * np.abs(k.gamma).max() * u + tm
        vlim = 50 * NUG * (k.sigma2 + 1) * u**2 + tv
        sl = float(c.Y[1].std())
        if lim < 1e-2 * sl:
            a, s = m.predict_lf(c.X[1].copy(), return_std=True)
            mon.close(a, c.Y[1], lim,
                      "low-fidelity training responses are reproduced", det)
            if vlim < 1e-2 * sl**2:
                mon.close(np.asarray(s)**2, np.zeros(a.shape), vlim,
                          "low-fidelity std is about zero at its points", det)
            mon.event("low-fidelity interpolation judged")
