"""P26: multi-fidelity acquisition functions equal their closed forms"""
import numpy as np

from harness.checks.p25 import retrain
from harness.acq import density, ei_lim, inside, mul, pi_lim
from harness.gen import CK, EPS, GP, HK, RBF, R, SK, query_points
from harness.surr import Case, public_state
from mfpml.optimization.mf_acqusitions import (AugmentedEI, ExtendedPI, VFEI,
                                               VFLCB)

RULE = ("a case trains two surrogates of one kind (plain, and with overridden "
        "uncertainties or equal fidelities) and evaluates the acquisition "
        "functions at both fidelities in all call forms on shared instances; "
        "non-trivial: each (acquisition, surrogate kind and form, fidelity, "
        "call form)")
MIN = {"values judged": 25000, "one-point calls": 2500, "zero std": 100,
       "unknown fidelities": 300, "refused models": 60,
       "low-fidelity values": 10000, "density above zero": 3000,
       "retrained between evaluations": 250,
       "own discrepancy models": 40, "zero factors": 40}


def cases(tier, rng):
    m = 3 if tier == "quick" else 40
    return [dict(kind=k, form=f) for k in ("HK", "SK", "CK")
            for f in ("real", "real", "warped", "equal")
            for _ in range(32 * m)]


def warp(base):
    class Warped(base):
        factor = factor_lf = 1.0
        part = same = inner = False

        def predict(self, X, return_std=False):
            X = np.asarray(X, float).reshape(-1, self.num_dim)
            self.inner = True       # the model may ask for its low fidelity
            try:
                m, s = base.predict(self, X, return_std=True)
            finally:
                self.inner = False
            s = s * self.factor
            if self.part:
                b = np.asarray(self.bound, float)
                s = np.where(X[:, :1] > b[0].mean(), 0.0, s)
            return (m, s) if return_std else m

        def predict_lf(self, X, return_std=False):
            if self.inner:
                return base.predict_lf(self, X, return_std)
            if self.same:
                return self.predict(X, return_std)
            X = np.asarray(X, float).reshape(-1, self.num_dim)
            m, s = base.predict_lf(self, X, return_std=True)
            return (m, s * self.factor_lf) if return_std else m
    return Warped


WARP = {k: warp(c) for k, c in dict(HK=HK, SK=SK, CK=CK).items()}


def build(rng, spec, mon):
    c = Case(rng, spec["kind"], d=int(rng.integers(1, 5)),
             nested=rng.random() < .3)
    m = c.build()
    if c.kind == "SK" and rng.random() < .4:    # a discrepancy of its own
        m = c.build(disc_model=GP(
            c.sp.copy(), optimizer=c.stub, noise_prior=c.prior,
            kernel=RBF(np.zeros(c.d), bounds=[-2.5, 3.0])))
        m.disc_model.optimizer = c.stub
        mon.event("own discrepancy models")
    c.fit(m)
    if spec["form"] != "real":
        m.__class__ = WARP[spec["kind"]]
    if spec["form"] == "warped":
        m.factor = float(rng.choice([0, 1e-9, 1e-3, 1, 100]))
        m.factor_lf = float(rng.choice([0, 1e-3, 1, 100]))
        m.part = bool(rng.random() < .4)
    elif spec["form"] == "equal":
        m.same = True
    return c, m


def run(spec, mon):
    rng = R(spec)
    kap = [float(rng.uniform(.1, 3)), float(rng.uniform(0, 4))]
    if rng.random() < .2:
        kap[int(rng.integers(2))] = 0.0
        mon.event("zero factors")
    lcb = VFLCB() if rng.random() < .3 else VFLCB(kappa=kap)
    if list(lcb.kappa) != kap:
        mon.check(list(lcb.kappa) == [1.0, 1.96], "default factors",
                  str(lcb.kappa))
        kap = [1.0, 1.96]
    A = dict(VFLCB=lcb, AEI=AugmentedEI(), EPI=ExtendedPI())
    if spec["kind"] == "HK":
        A["VFEI"] = VFEI()
    models = [build(rng, spec, mon), build(rng, spec, mon)]
    bufs = {c.d: np.empty((4, c.d)) for c, _ in models}
    for step in range(32):
        c, m = models[int(rng.integers(2))]
        name = str(rng.choice(list(A)))
        fid = int(rng.integers(2))
        cr = float(rng.choice([1.0, 2.0, 5.0, 37.0, .5]))
        X = np.vstack([query_points(rng, c.sp, c.X[0], 6), c.X[1][:2],
                       c.X[0][:2]])
        if spec["form"] == "real" and rng.random() < .1:
            retrain(c, m)
            mon.event("retrained between evaluations")
        form = str(rng.choice(["batch", "one", "flat", "buffer"]))
        if form == "batch":
            X = X[rng.permutation(len(X))]
            if rng.random() < .1:
                X = X[rng.integers(len(X), size=int(2**rng.uniform(5, 10)))]
                mon.event("large batches")
        elif form == "buffer":      # one array object, new contents
            buf = bufs[c.d]
            buf[:] = X[rng.integers(len(X), size=len(buf))]
            X = buf
        else:
            X = X[rng.integers(len(X))][None]
        a = X[0] if form == "flat" else X
        keep, before = np.array(a, copy=True), public_state(m)
        Y = c.Y[0]
        sd = float(Y.std())
        fmin = float(rng.choice([Y.min(), Y.mean(), Y.min() - 2 * sd]))
        args = dict(VFLCB=(m, cr, fid), AEI=(m, cr, fid),
                    VFEI=(fmin, m, fid), EPI=(m, fmin, cr, fid))[name]
        got = A[name].eval(a, *args)
        det = (f"{name} fidelity {fid} {form} {spec['kind']} {spec['form']} "
               f"d={c.d} noise {c.mode} cost ratio {cr}")
        mon.same(a, keep, "the points are not modified", det)
        mon.check(before == public_state(m),
                  "evaluation changes no surrogate", det)
        judge(mon, c, m, name, fid, cr, X, got, fmin, kap, det)
        mon.event("values judged", len(X))
        if fid:
            mon.event("low-fidelity values", len(X))
        if form in ("one", "flat"):
            mon.event("one-point calls")
        mon.state(name, spec["kind"], spec["form"], fid, form, c.d,
                  c.mode)
        if rng.random() < .2:
            bad = rng.choice([2, -1, 7])
            z = list(args)
            z[-1] = int(bad)
            mon.raises(Exception if name == "EPI" else ValueError,
                       lambda: A[name].eval(X, *z),
                       "unknown fidelities are refused")
            mon.event("unknown fidelities")
    if spec["kind"] != "HK":
        c, m = models[0]
        mon.raises(ValueError, lambda: VFEI().eval(
            c.X[0], 0.0, m, 0), "VFEI refuses other models")
        mon.event("refused models")


def judge(mon, c, m, name, fid, cr, X, got, fmin, kap, det):
    mu, s = (np.ravel(v) for v in m.predict(X.copy(), return_std=True))
    ml, sl = (np.ravel(v) for v in m.predict_lf(X.copy(), return_std=True))
    sd = float(c.Y[0].std())
    big = sd + np.abs(mu) + np.abs(fmin)
    fl = 1e-11 * (big + s + sl * cr)
    tm, ts = 1e-12 * np.abs(mu) + 1e-15, 1e-12 * s
    mon.event("zero std", int((s == 0).sum()))
    if name == "VFLCB":
        v = kap[0] * mu - kap[1] * (sl * cr if fid else s)
        inside(mon, got, v, v, "variable-fidelity confidence bound", det,
               floor=fl)
        return
    if name == "VFEI":
        if fid:
            q = abs(float(np.ravel(m.beta)[0])) * sl
        else:
            q = s
        lo, hi = ei_lim(fmin, mu, q, tm, 1e-12 * q, 0, 1e-7)
        zero = q <= 2 * EPS     # declared to have nothing to gain
        lo[zero] = 0
        with np.errstate(all="ignore"):
            # 1e-8 is added to the std where it divides
            fl = fl + np.minimum(1e-8, 1e-15 / q)
        inside(mon, got, -hi, -lo, "variable-fidelity expected improvement",
               det, floor=fl)
        return
    if fid:
        den = np.abs(mu - ml) + s
        ok = den > 1e-9 * big
        with np.errstate(all="ignore"):
            r = sl / den
            er = 1e-9 + 1e-13 * big / den
        cor = r * (1 - er), r * (1 + er)
    else:
        ok = np.ones(len(X), bool)
        cor = np.ones(len(X)), np.ones(len(X))
    k = cr if fid else 1.0
    zero = s <= 2 * EPS
    if name == "AEI":
        S = np.vstack([c.X[0], c.X[1]])
        a, b = (np.ravel(v) for v in m.predict(S.copy(), return_std=True))
        u = a + b
        one = np.concatenate([np.ravel(m.predict(x[None])) for x in S])
        r = c.ref(m)
        tol = float(np.max(r.predict(S)[2]))
        tol += float(np.sqrt(np.max(np.abs(r.predict(S)[3])))) * abs(
            getattr(m, "factor", 1.0)) if (b < 1e-6 * sd).any() else 0.0
        near = u <= u.min() + 4 * tol + 1e-9 * sd
        f = one[near]
        tf = 2e-12 * (np.abs(f).max() + sd) + tol * 1e-3
        lo = np.full(len(X), np.inf)
        hi = np.full(len(X), -np.inf)
        for g in {float(f.min()), float(f.max())}:
            p, q = ei_lim(g, mu, s, tm, ts, tf)
            lo, hi = np.minimum(lo, p), np.maximum(hi, q)
        lo[zero] = 0.0
        hi[s < EPS / 2] = 0.0
        lo, hi = mul((lo, hi), cor)
        inside(mon, np.ravel(got)[ok] if np.size(got) == len(X) else got,
               -hi[ok] * k, -lo[ok] * k, "augmented expected improvement",
               det, floor=fl[ok] * (1 + cor[1][ok]) * k + tf)
        return
    lo, hi = pi_lim(fmin, mu, s, tm, ts)
    lo[zero] = 0.0
    hi[s < EPS / 2] = 0.0
    lo, hi = mul((lo, hi), cor)
    K = m.lfGP if fid else (m.disc_model if hasattr(m, "disc_model") else m)
    eta = density(X, c.X[fid], np.ravel(K.kernel.param), c.sp)
    mon.event("density above zero", int((eta > 1e-6).sum()))
    # one minus a correlation near one
    inside(mon, np.ravel(got)[ok] if np.size(got) == len(X) else got,
           -(hi * eta * k)[ok], -(lo * eta * k)[ok],
           "extended probability of improvement", det, rel=1e-6,
           floor=(1e-8 * (1 + cor[1]) * k)[ok])
