"""P25: single-fidelity acquisition functions equal their closed forms"""
import numpy as np

from harness.acq import ei_lim, inside, pi_lim
from harness.gen import GP, R, gp_data, query_points
from harness.surr import Case, public_state
from mfpml.optimization.sf_cons_acqusitions import CEI
from mfpml.optimization.sf_uncons_acqusitions import EI, LCB, PI

RULE = ("a case trains surrogates (plain ones and ones whose predictions are "
        "overridden with far, tiny or zero uncertainty) and evaluates every "
        "acquisition function in all call forms on shared instances; "
        "non-trivial: each (acquisition, surrogate form, call form, number "
        "of constraints)")
MIN = {"values judged": 20000, "one-point calls": 2000, "zero std": 150,
       "several constraints": 100, "training points judged": 1000,
       "retrained between evaluations": 150, "zero factors": 100}


def cases(tier, rng):
    m = 8 if tier == "quick" else 40
    return [dict(kind=k) for k in ("real", "warped") for _ in range(120 * m)]


class Warped(GP):
    """a trained surrogate whose predictions are overridden"""

    mode, factor, shift = "", 1.0, 0.0

    def predict(self, X, return_std=False):
        X = np.asarray(X, float).reshape(-1, self.num_dim)
        m, s = GP.predict(self, X, return_std=True)
        m = m + self.shift
        s = s * self.factor
        if self.mode == "partly":
            u = (X[:, :1] - self.bounds[0, 0]) / (
                self.bounds[0, 1] - self.bounds[0, 0])
            s = np.where(u > .5, 0.0, s)
        return (m, s) if return_std else m


def build(rng, spec, d, sp=None, X=None):
    c = Case(rng, "GP", d=d, regr=True)
    if sp is not None:                  # another response on the same points
        c.sp, c.X = sp, [X.copy()]
        y = gp_data(rng, d, len(X), "unit")[1]((X - sp[:, 0]) / (
            sp[:, 1] - sp[:, 0]))
        y = y - np.quantile(y, rng.uniform(.1, .9))
        c.Y = [y]
        if c.prior:
            c.prior = c.s * float(y.std())
        c.answers = c._answers(rng)
    m = c.fit()
    if spec["kind"] == "warped":
        m.__class__ = Warped
        m.mode = str(rng.choice(["", "partly"]))
        m.factor = float(rng.choice([0, 1e-12, 1e-6, 1, 1e3]))
        m.shift = float(rng.normal() * c.Y[0].std() * rng.choice(
            [0, 1, 10]))
    return c, m


def retrain(c, m):
    """the same surrogate object gets mirrored responses"""
    c.Y = [2 * y.max() + .3 * y.std() - y for y in c.Y]
    c.stub.calls.clear()
    m.train(*c.args())


def run(spec, mon):
    rng = R(spec)
    d = int(rng.integers(1, 5))
    kap = [float(rng.uniform(.1, 3)), float(rng.uniform(0, 4))]
    if rng.random() < .2:
        kap[int(rng.integers(2))] = 0.0
        mon.event("zero factors")
    lcb = LCB() if rng.random() < .3 else LCB(kappa=kap)
    if list(lcb.kappa) != kap:
        mon.check(list(lcb.kappa) == [1.0, 1.96], "default factors",
                  str(lcb.kappa))
        kap = [1.0, 1.96]
    acqs = dict(LCB=lcb, EI=EI(), PI=PI(), CEI=CEI())
    c, m = build(rng, spec, d)
    models = [(c, m), build(rng, spec, d)]
    nc = int(rng.integers(1, 5 if rng.random() < .8 else 10))
    cons = [build(rng, spec, d, c.sp, c.X[0])[1] for _ in range(nc)]
    Q = np.vstack([query_points(rng, c.sp, c.X[0], 8), c.X[0][:3]])
    buf = np.empty((4, d))
    for step in range(30):
        name = str(rng.choice(list(acqs)))
        j = int(rng.integers(2))
        cc, mm = models[j]
        if j == 1 and name == "CEI":
            cc, mm = models[0]
        if cc is not c:
            X = query_points(rng, cc.sp, cc.X[0], 5)
        else:
            X = Q
        if spec["kind"] == "real" and rng.random() < .1:
            retrain(cc, mm)
            mon.event("retrained between evaluations")
        form = str(rng.choice(["batch", "permuted", "one", "flat", "int",
                               "buffer"]))
        if form == "permuted":
            X = X[rng.permutation(len(X))]
        elif form in ("one", "flat"):
            X = X[rng.integers(len(X))][None]
        elif form == "buffer":      # one array object, new contents
            buf[:] = X[rng.integers(len(X), size=len(buf))]
            X = buf
        elif form == "int":
            X = np.round(X[:4])
            X = X[((X >= cc.sp[:, 0]) & (X <= cc.sp[:, 1])).all(1)]
            if not len(X):
                continue
            X = X.astype(int)
        if form == "permuted" and rng.random() < .15:
            X = X[rng.integers(len(X), size=int(2**rng.uniform(5, 10.5)))]
            mon.event("large batches")
        a = X[0] if form == "flat" else X
        keep, before = np.array(a, copy=True), [public_state(mm)] + [
            public_state(g) for g in cons]
        if name == "CEI":
            got = acqs[name].eval(a, mm, cons)
        else:
            got = acqs[name].eval(a, mm)
        det = (f"{name} {form} d={d} n={len(X)} noise {cc.mode} "
               f"{spec['kind']} {getattr(mm, 'mode', '')} "
               f"x{getattr(mm, 'factor', 1)}")
        mon.check(before == [public_state(mm)] + [public_state(g) for g in cons],
                  "evaluation changes no surrogate", det)
        mon.same(a, keep, "the points are not modified", det)
        mu, s = (np.ravel(v) for v in mm.predict(X.copy(), return_std=True))
        # the same prediction in the same call form: rounding only
        tm = 1e-12 * np.abs(mu) + 1e-15
        ts = 1e-12 * s
        fmin = float(cc.Y[0].min())
        sd = float(cc.Y[0].std())
        fl = 1e-12 * (sd + np.abs(mu) + np.abs(s) + abs(fmin))
        # 1e-9 is added to the std where it divides: felt below 1e-8 only
        with np.errstate(all="ignore"):
            fe = fl + np.minimum(1e-9, 1e-17 / s)
        if name == "LCB":
            v = kap[0] * mu - kap[1] * s
            inside(mon, got, v, v, "lower confidence bound", det, floor=fl)
        elif name == "EI":
            lo, hi = ei_lim(fmin, mu, s, tm, ts, 0, 1e-8)
            inside(mon, got, -hi, -lo, "expected improvement", det,
                   floor=fe)
        elif name == "PI":
            lo, hi = pi_lim(fmin, mu, s, tm, ts, 0, 1e-8)
            inside(mon, got, -hi, -lo, "probability of improvement", det)
        else:
            lo, hi = ei_lim(fmin, mu, s, tm, ts, 0, 1e-8)
            plo, phi_ = np.ones(len(X)), np.ones(len(X))
            for g in cons:
                gm, gs = (np.ravel(v) for v in g.predict(
                    X.copy(), return_std=True))
                p, q = pi_lim(0.0, gm, gs, 1e-12 * np.abs(gm) + 1e-15,
                              1e-12 * gs, 0, 1e-8)
                plo, phi_ = plo * p, phi_ * q
            inside(mon, got, -np.maximum(hi, 0) * phi_,
                   -np.maximum(lo, 0) * plo,
                   "constrained expected improvement", det, floor=fe)
            if nc > 1:
                mon.event("several constraints")
        mon.event("values judged", len(X))
        if len(X) == 1:
            mon.event("one-point calls")
        mon.event("zero std", int((s == 0).sum()))
        if cc is c:
            mon.event("training points judged", int(sum(
                (x == c.X[0]).all(1).any() for x in X)))
        mon.state(name, spec["kind"], getattr(mm, "mode", ""),
                  getattr(mm, "factor", 1), form, nc if name == "CEI" else 0,
                  d)

