"""P19: scaled kriging composes scale times low fidelity plus discrepancy"""
import numpy as np

from harness.gen import GP, MINLOG, R, RBF, SK, StubOptimizer, query_points
from harness.surr import Case

RULE = ("a case trains one scaled-kriging model (scale fixed, optimized by "
        "error or bumpiness, by the default or a plugged-in optimizer; "
        "default, user-supplied or recording sub-models) and composes its "
        "prediction from the sub-models' own; non-trivial: each (sub-models, "
        "scale method, scale optimizer, noise setting, scale clipped or not)")
MIN = {"compositions judged": 2500, "least-squares scales judged": 120,
       "clipped scales": 25, "recorded sub-models": 120,
       "scale plug-ins judged": 60, "bumpiness scales": 30,
       "reference compared": 110}


def cases(tier, rng):
    m = 5 if tier == "quick" else 30
    out = []
    for sub in ("default", "user", "recording"):
        for rho in ("fixed", "error", "plug-in"):
            out += [dict(kind=sub, rho=rho) for _ in range(60 * m)]
    return (out + [dict(kind="default", rho="bumpiness")
                   for _ in range(16 * m)]
            + [dict(kind="default", rho="bumpiness plug-in")
               for _ in range(24 * m)])


class SubModel:
    """recording stand-in for a sub-model"""

    def __init__(self, rng, d, sp):
        self.calls, self.queries = [], 0
        self.w = rng.normal(size=d)
        self.o, self.v = float(rng.normal()), float(rng.uniform(.1, 2))
        self.sp = sp
        self.noise = 0.0
        self.kernel = RBF(np.zeros(d))

    def train(self, X, Y):
        self.calls.append((np.array(X, float).copy(),
                           np.array(Y, float).copy()))
        self.m = float(np.mean(Y))
        self.s = float(np.std(Y)) + 1e-12
        self.num_samples = len(X)

    @property
    def _num_samples(self):
        return self.num_samples

    def predict(self, X, return_std=False):
        self.queries += 1
        u = (np.asarray(X, float) - self.sp[:, 0]) / (
            self.sp[:, 1] - self.sp[:, 0])
        mean = (self.m + self.s * (np.sin(u @ self.w) + self.o)).reshape(
            -1, 1)
        if not return_std:
            return mean
        return mean, (self.v * self.s * (1.1 + np.cos(u @ self.w))).reshape(
            -1, 1)


def finish(counts):
    n = counts["least-squares scales judged"]
    k = counts["inexact least-squares scales"]
    if k > 0.02 * n + 4:
        yield (f"the error method yields the least-squares scale: {k} of {n} "
               "scales are off")


def run(spec, mon):
    rng = R(spec)
    sub, how = spec["kind"], spec["rho"]
    # True noise-free least squares needs a low fidelity away from zero
    c = Case(rng, "SK", d=int(rng.integers(1, 4)), nested=rng.random() < .4,
             default=True)
    kw = dict(noise_prior=c.prior, optimizer_restart=0)
    lf = disc = None
    if sub == "user":
        lf = GP(c.sp.copy(), noise_prior=0.0 if rng.random() < .5 else None,
                optimizer_restart=1)
        disc = GP(c.sp.copy(), noise_prior=0.0, kernel=RBF(
            np.zeros(c.d), bounds=[-1.0, 2.0]))
    elif sub == "recording":
        lf, disc = SubModel(rng, c.d, c.sp), SubModel(rng, c.d, c.sp)
    if lf is not None and rng.random() < .7:
        kw["lfGP"] = lf
    if disc is not None and (rng.random() < .7 or "lfGP" not in kw):
        kw["disc_model"] = disc
    rb = [1e-2, 1e1]
    if how != "fixed":
        kw["rho_optimize"] = True
        k = rng.integers(4)
        if k == 1:
            rb = [.9, 1.1]
        elif k == 2:
            rb = [5.0, 9.0]
        elif k == 3:
            rb = [float(rng.uniform(.01, .3)), float(rng.uniform(.4, 3))]
        if k:
            kw["rho_bound"] = list(rb)
        kw["rho_method"] = "bumpiness" if "bump" in how else "error"
    plug = None
    if "plug-in" in how:
        pick = float(rng.uniform(*rb))
        seen = []

        def answer(k, space, func, args):
            X = np.linspace(space[0, 0], space[0, 1], 3).reshape(-1, 1)
            if "bump" not in how:
                seen.append((X.copy(), np.array(func(X, *args), float)))
            return [pick]
        plug = StubOptimizer(answer)
        kw["rho_optimizer"] = plug
    stub = None
    if rng.random() < .5 and sub != "recording":
        # scripted correlation parameters for the default sub-models
        stub = StubOptimizer(lambda k, s, f, a: s[:, 0] + .55 * (
            s[:, 1] - s[:, 0]) if len(s) == c.d else np.append(
            s[:-1, 0] + .55 * (s[:-1, 1] - s[:-1, 0]), .1))
        kw["optimizer"] = stub
    det = (f"sub={sub} rho={how} rb={rb} d={c.d} {c.mode} "
           f"{sorted(set(kw) & {'lfGP', 'disc_model'})}")
    m = SK(c.sp.copy(), **kw)
    if how == "fixed":
        mon.check(float(np.ravel(m.rho)[0]) == 1.0, "the scale is 1 unless "
                  "optimized", det)
    rounds = 2 if rng.random() < .3 else 1
    for _ in range(rounds):
        MINLOG.clear()
        if plug is not None:
            plug.calls.clear()
            seen.clear()
        m.train(*c.args())
    MINLOG.clear()
    rho = np.ravel(np.asarray(m.rho, float))
    if not mon.check(rho.size == 1 and np.isfinite(rho[0]),
                     "one finite scale", f"{rho} {det}"):
        return
    rho = float(rho[0])
    low, dm = m.lfGP, m.disc_model
    mon.check((lf is None or "lfGP" not in kw or low is lf)
              and ("disc_model" not in kw or dm is disc),
              "user-supplied models are used", det)
    # ---- what the sub-models were given -----------------------------------
    at_h = np.asarray(m.predict_lf(c.X[0].copy()), float)
    want = c.Y[0] - rho * at_h
    sc = np.abs(c.Y[0]).max() + abs(rho) * np.abs(at_h).max()
    for name, mod, X, Y in (("low-fidelity", low, c.X[1], c.Y[1]),
                            ("discrepancy", dm, c.X[0], want)):
        if isinstance(mod, SubModel):
            X1, Y1 = mod.calls[-1]
            mon.event("recorded sub-models")
            if name == "low-fidelity":
                mon.check(len(mod.calls) == rounds, "one training per "
                          "training", f"{len(mod.calls)} {det}")
        else:
            X1, Y1 = mod.sample_x, mod.sample_y
        mon.same(X1, X, f"points of the {name} model", det)
        mon.close(np.ravel(Y1), np.ravel(Y), 1e-11 * sc,
                  f"responses of the {name} model", det)
    # ---- composition ------------------------------------------------------
    Q = np.vstack([query_points(rng, c.sp, c.X[0], 8), c.X[1][:3]])
    mean, std = m.predict(Q.copy(), return_std=True)
    a, s = m.predict_lf(Q.copy(), return_std=True)
    a2, s2 = low.predict(Q.copy(), return_std=True)
    mon.close(a, a2, 1e-11 * np.abs(a2).max(),
              "the low-fidelity predictor is the low-fidelity model", det)
    mon.close(s, s2, 1e-9 * np.abs(s2).max(),
              "the low-fidelity predictor is the low-fidelity model", det)
    b, t = dm.predict(Q.copy(), return_std=True)
    mon.close(mean, rho * a + b, 1e-11 * (np.abs(rho * a) + np.abs(b)).max(),
              "mean = scale * low fidelity + discrepancy", det)
    mon.close(m.predict(Q.copy()), mean, 1e-11 * (
        np.abs(rho * a) + np.abs(b)).max(), "mean without std", det)
    v = rho**2 * np.asarray(s)**2 + np.asarray(t)**2
    mon.close(np.asarray(std)**2, v, 1e-9 * v + 1e-13 * v.max(),
              "variance = scale^2 * low fidelity + discrepancy", det)
    mon.event("compositions judged", len(Q))
    # ---- the scale --------------------------------------------------------
    clipped = None
    if how != "fixed":
        mon.check(rb[0] - 1e-12 <= rho <= rb[1] + 1e-12,
                  "an optimized scale is inside its bounds", f"{rho} {det}")
    else:
        mon.check(rho == 1.0, "the scale is 1 unless optimized",
                  f"{rho} {det}")
    if how == "error":
        L, H = at_h.ravel(), c.Y[0].ravel()
        best = float(L @ H / (L @ L))
        opt = float(np.clip(best, *rb))
        err = lambda r: float(((r * L - H)**2).sum())          # noqa: E731
        gap = (err(rho) - err(opt)) / (H @ H)
        mon.check(gap <= 1e-3, "the error method yields the least-squares "
                  "scale", f"{rho} vs {opt}, excess {gap} {det}")
        if gap > 1e-8:
            mon.event("inexact least-squares scales")
        mon.event("least-squares scales judged")
        clipped = opt != best
        if clipped:
            mon.event("clipped scales")
    if plug is not None:
        ok = mon.check(len(plug.calls) == 1, "the plugged-in scale optimizer "
                       "is used once", f"{len(plug.calls)} {det}")
        if ok:
            call = plug.calls[0]
            mon.check(call["num_dim"] == 1 and np.array_equal(
                call["space"], np.array([rb])), "the scale optimizer gets "
                "the scale's bounds", f"{call['space']} {det}")
            mon.close(rho, pick, 1e-12, "the chosen scale is used", det)
            for X, val in seen:
                e = ((X * at_h.ravel() - c.Y[0].ravel())**2).sum(1)
                mon.close(np.ravel(val), e, 1e-9 * (np.abs(e) + sc**2),
                          "the objective is the squared error", det)
            mon.event("scale plug-ins judged")
    if "bump" in how:
        mon.event("bumpiness scales")
    # ---- against the dense reference --------------------------------------
    if sub == "default":
        r = c.ref(m)
        rm, rv, tm, tv = r.predict(Q)
        if np.max(tm) < 1e-2 * c.Y[0].std():
            mon.close(mean, rm, tm, "reference mean", det)
            if np.max(tv) < 1e-2 * c.Y[0].var():
                mon.close(np.asarray(std)**2, rv, tv, "reference variance",
                          det)
            mon.event("reference compared")
    mon.state(sub, how, c.mode, clipped, stub is not None,
              tuple(sorted(set(kw) & {"lfGP", "disc_model"})))
