"""Random surrogates of all four kinds with what the oracle needs to know"""
import numpy as np

from harness.gen import (BF, CK, GP, HK, SK, EPS, RefCK, RefGP, RefHK,
                         RefKriging, StubOptimizer, gp_data, mf_data, thetas,
                         unit)

KINDS = ["GP", "HK", "SK", "CK"]
CLS = dict(GP=GP, HK=HK, SK=SK, CK=CK)


class Case:
    """A surrogate with its data, prescribed parameters and references.

    s: noise relative to the standard deviation of the responses (0: none);
    mode: "free" (prior 0), "given" (prior = noise), "est" (prior None)
    """

    def __init__(self, rng, kind, d=None, mode=None, default=False, nh=None,
                 nl=None, nested=False, space=None, data=None, rho_opt=None,
                 restart=0, regr=False):
        self.kind, self.default = kind, default
        self.d = d = d or int(rng.integers(1, 5))
        self.mode = mode = mode or str(rng.choice(["free", "given", "est"]))
        # now and then far more data than usual
        big = not (nl or nh) and rng.random() < (.02 if default else .08)
        nl = nl or int(rng.integers(40, 110) if big else
                       rng.integers(6, 16)) + 2 * d
        nh = nh or int(rng.integers(25, 60) if big else
                       rng.integers(4, 9)) + d
        nh = min(nh, nl) if nested else nh
        self.s = 0.0 if mode == "free" else float(10**rng.uniform(-2, -.5))
        dn = 0.0 if mode == "free" else .1
        if kind == "GP":
            sp, f, X, y = gp_data(rng, d, nl, space, dn)
            self.X, self.Y = [X], [y]
            self.true = [f]
        else:
            sp, hf, lf, self.X, self.Y = mf_data(
                rng, d, nh, nl, space, dn, nested)
            self.true = [hf, lf]
        self.sp = sp
        if dn and rng.random() < .25:   # replicated measurements
            for x in self.X:
                k = int(rng.integers(1, 3))
                x[1:1 + k] = x[0]
        # some of the data beyond the design space
        self.beyond = not (default or nested) and rng.random() < .07
        if self.beyond:
            for x in self.X:
                k = int(rng.integers(1, len(x) // 2 + 1))
                x[-k:] = sp.mean(1) + float(rng.uniform(1.1, 1.8)) * (
                    x[-k:] - sp.mean(1))
        self.prior = dict(free=0.0, given=self.s * float(self.Y[0].std()),
                          est=None)[mode]
        self.rho = 1.0
        self.restart = restart
        self.regr = "ordinary"
        if regr and kind == "GP":
            self.regr = str(rng.choice(["ordinary", "linear", "quadratic"]
                                       [:3 if d < 3 else 2]))
        if default:
            self.answers = None
        else:
            self.answers = self._answers(rng)

    def _answers(self, rng):
        U = [unit(x, self.sp) for x in self.X]
        e = self.mode == "est"

        def tail(t, s):
            return np.append(t, s) if e else t
        if self.kind == "GP":
            t = thetas(rng, U[0], noise=self.s)
            self.th = [t]
            return [tail(t, self.s)]
        tl = thetas(rng, U[1], noise=self.s)
        th = thetas(rng, U[0], noise=self.s)
        self.th = [th, tl]
        if self.kind == "CK":
            self.rho = float(rng.uniform(.3, 2.5))
            for _ in range(60):     # joint matrix has both sets in it
                if self._ck_ref().cond < 1e8:
                    break
                tl = np.minimum(tl + .2, 2.45)
                th = np.minimum(th + .2, 2.45)
                self.th = [th, tl]
            return [tail(tl, self.s),
                    np.concatenate([[self.rho], [self.s] if e else [], th])]
        return [tail(tl, self.s), tail(th, self.s)]

    def _noises(self):
        """noise of (high, low) fidelity in response units"""
        if self.kind == "GP":
            return [self.s * self.Y[0].std()]
        if self.kind == "CK":
            n = self.s * self.Y[0].std()
            return [n, n]
        if self.mode == "est":      # relative to what each model is given
            return [None, self.s * self.Y[1].std()]
        return [self.prior, self.prior]

    def _ck_ref(self):
        n = self._noises()
        return RefCK(self.sp, self.X[0], self.Y[0], self.X[1], self.Y[1],
                     self.rho, 10.0**self.th[1], 10.0**self.th[0], n[1],
                     n[0])

    def build(self, **kw):
        opt = None if self.default else StubOptimizer(self.answers)
        self.stub = opt
        if opt is not None:
            opt.probe = getattr(self, "probe", None)
        if self.regr != "ordinary":
            kw["regr"] = dict(linear=BF.Linear,
                              quadratic=BF.Quadratic)[self.regr]()
        return CLS[self.kind](self.sp.copy(), optimizer=opt,
                              noise_prior=self.prior,
                              optimizer_restart=self.restart, **kw)

    def args(self):
        X, Y = [x.copy() for x in self.X], [y.copy() for y in self.Y]
        return (X[0], Y[0]) if self.kind == "GP" else (X, Y)

    def fit(self, m=None, **kw):
        m = self.build(**kw) if m is None else m
        m.train(*self.args())
        return m

    # ---- reference of a trained model (reads its fitted parameters) -------
    def ref(self, m):
        return Ref(self, m)


class Ref:
    """mean/variance of the high fidelity (and lf of the low fidelity)"""

    def __init__(self, c, m):
        self.c = c
        k = c.kind
        par = lambda q: np.ravel(np.asarray(q.kernel.param, float))  # noqa
        if k == "GP":
            self.hf = RefGP(c.sp, c.X[0], c.Y[0], par(m), float(m.noise),
                            c.regr)
            self.cond, self.noise = self.hf.cond, float(m.noise)
            return
        if k == "CK":
            sd = float(c.Y[0].std())
            self.hf = RefCK(c.sp, c.X[0], c.Y[0], c.X[1], c.Y[1],
                            float(np.ravel(m.rho)[0]), par(m.lfGP), par(m),
                            float(m.lfGP.noise) * sd, float(m.noise) * sd)
            self.cond, self.noise = self.hf.cond, float(m.noise) * sd
            return
        self.low = RefGP(c.sp, c.X[1], c.Y[1], par(m.lfGP),
                         float(m.lfGP.noise))
        lfp = lambda X: self.low.predict(X)[0]                 # noqa: E731
        if k == "HK":
            self.hf = RefHK(c.sp, c.X[0], c.Y[0], lfp, par(m),
                            float(m.noise))
            self.noise = float(m.noise)
        else:
            self.rho = float(np.ravel(m.rho)[0])
            self.disc_y = c.Y[0] - self.rho * lfp(c.X[0])
            dm = m.disc_model
            self.hf = RefGP(c.sp, c.X[0], self.disc_y, par(dm),
                            float(dm.noise))
            self.noise = float(dm.noise)
        self.cond = max(self.low.cond, self.hf.cond)

    def predict(self, X):
        """mean, variance, tolerance of the mean, tolerance of the variance"""
        k = self.c.kind
        if k in ("GP", "CK"):
            return self.hf.predict(X) + self.hf.tols()
        tl, vl = self.low.tols()
        if k == "SK":
            a, b = self.low.predict(X), self.hf.predict(X)
            td, vd = self.hf.tols()
            r = abs(self.rho)
            # an error of the low fidelity at Xh passes through the fit
            amp = 1 + np.abs(self.hf.k.gamma).sum() * 1e-16 + r
            return (self.rho * a[0] + b[0], r**2 * a[1] + b[1],
                    3 * amp * (r + 1) * tl + td, r**2 * vl + vd
                    + 8 * tl * np.sqrt(self.hf.k.sigma2) * self.hf.sd)
        mean, var, F = self.hf.predict(X)
        th, vh = self.hf.tols(F)
        # relative error of the trend column carries over to the prediction
        rel = 4 * tl / max(self.hf.sd, 1e-300)
        ymax = np.abs(self.hf.k.y).max() + np.abs(self.hf.k.beta).max() * (
            np.abs(F).max() + 1)
        g = np.abs(self.hf.k.gamma).sum()
        amp = 1 + min(g, 1e4)
        return (mean, var, th + rel * self.hf.sd * amp * ymax,
                vh + rel * amp * (self.hf.k.sigma2 * self.hf.sd**2
                                  * (1 + np.abs(F).max()**2)))

    def predict_lf(self, X):
        if self.c.kind == "CK":
            return self.hf.predict_lf(X) + self.hf.tols_lf()
        return self.low.predict(X) + self.low.tols()


def public_state(m):
    """what a caller can see of a trained model besides its predictions"""
    out = []
    for o in (m, getattr(m, "lfGP", None), getattr(m, "disc_model", None)):
        if o is None:
            continue
        out.append(np.array(o.kernel.param, float).tobytes())
        out.append(np.array(o.noise, float).tobytes())
        for a in ("sample_x", "sample_y", "sample_xh", "sample_yh",
                  "sample_xl", "sample_yl", "rho", "bounds", "bound",
                  "num_dim"):
            if hasattr(o, a):
                v = np.array(getattr(o, a), float)
                out.append((v.shape, v.tobytes()))
    return out


__all__ = ["public_state", "Case", "Ref", "KINDS", "CLS", "EPS", "BF", "RefKriging"]
