"""Recorded Bayesian optimizations: problems, acquisitions and the log"""
import numpy as np

from harness.gen import Smooth, space, uniform
from mfpml.optimization.mf_acqusitions import MFUnConsAcq
from mfpml.optimization.mf_uncons_bo import mfUnConsBayesOpt
from mfpml.optimization.sf_cons_acqusitions import SFConsAcq
from mfpml.optimization.sf_cons_bo import BayesConsOpt
from mfpml.optimization.sf_uncons_acqusitions import SFUnConsAcq
from mfpml.optimization.sf_uncons_bo import BayesUnConsOpt
from mfpml.problems.functions import Functions
from mfpml.problems.mf_functions import MultiFidelityFunctions

SURROGATES = ["HierarchicalKriging", "ScaledKriging", "CoKriging"]


class Script:
    """a black box whose answers are drawn from a list: new points get the
    next answer, known points the answer they had"""

    def __init__(self, values):
        self.values, self.seen = list(values), {}

    def __call__(self, X):
        out = []
        for x in np.asarray(X, float):
            k = x.tobytes()
            if k not in self.seen:
                self.seen[k] = self.values[len(self.seen) % len(
                    self.values)]
            out.append(self.seen[k])
        return np.array(out, float).reshape(-1, 1)


class Log(list):
    def rows(self, kind):
        X = [e[1] for e in self if e[0] == kind]
        Y = [e[2] for e in self if e[0] == kind]
        return (np.vstack(X) if X else None, np.vstack(Y) if Y else None)

    def queries(self):
        return [e[1] for e in self if e[0] == "query"]

    def add(self, kind, X, Y):
        # one row at a time or batches are the same to the books
        for x, y in zip(np.asarray(X, float), np.asarray(Y, float)):
            self.append((kind, x.copy()[None], np.ravel(y).copy()[None]))


class SFProblem(Functions):
    def __init__(self, log, sp, f, optimum=None, cons=()):
        self.log, self.input_domain = log, sp
        self._f, self._c, self.optimum = f, list(cons), optimum
        self.num_dim, self.num_cons, self.num_obj = len(sp), len(cons), 1

    def f(self, x):
        y = np.asarray(self._f(np.array(x, float)), float).reshape(-1, 1)
        self.log.add("f", x, y)
        return y

    def f_cons(self, x):
        y = np.hstack([np.asarray(c(np.array(x, float)), float).reshape(
            -1, 1) for c in self._c])
        self.log.add("cons", x, y)
        return y


class MFProblem(MultiFidelityFunctions):
    def __init__(self, log, sp, hf, lf, optimum=None):
        self.log, self.input_domain = log, sp
        self._hf, self._lf, self.optimum = hf, lf, optimum
        self.num_dim, self.num_cons, self.num_obj = len(sp), 0, 1
        self.low_fidelity = True

    def hf(self, x):
        y = np.asarray(self._hf(np.array(x, float)), float).reshape(-1, 1)
        self.log.add("hf", x, y)
        return y

    def lf(self, x, factor=None):
        y = np.asarray(self._lf(np.array(x, float)), float).reshape(-1, 1)
        self.log.add("lf", x, y)
        return y


def snap_sf(m):
    return dict(X=np.array(m.sample_x, float), Y=np.array(m.sample_y, float)
                .reshape(-1, 1), pred=predict(m, np.array(m.sample_x, float)))


def kept(mon, b, det, **parts):
    """the record of the initial design stays that of the initial design"""
    for k, v in parts.items():
        got = getattr(b, k, None)
        if got is not None:
            for g, w in zip(got, v) if isinstance(v, list) else [(got, v)]:
                mon.same(np.reshape(g, w.shape) if np.size(g) == w.size
                         else g, w, "the initial design is kept",
                         f"{k}; {det}")
            mon.event("initial designs kept")


def surely(predict, X, Y):
    """a noise-free surrogate is sure of its data"""
    with np.errstate(all="ignore"):
        s = np.ravel(predict(X, return_std=True)[1])
    return int(not s.min() <= 1e-2 * Y.std())


def predict(m, X):
    with np.errstate(all="ignore"):
        return np.array(m.predict(X), float).reshape(-1, 1)


def snap_mf(m):
    xh, xl = np.array(m.sample_xh, float), np.array(m.sample_xl, float)
    return dict(Xh=xh, Xl=xl, Yh=np.array(m.sample_yh, float).reshape(-1, 1),
                Yl=np.array(m.sample_yl, float).reshape(-1, 1),
                pred=predict(m, xh))


class Proposer:
    """scripted proposals in the design space"""

    def __init__(self, rng, sp, log):
        self.rng, self.sp, self.log = rng, np.asarray(sp, float), log
        self.buf = np.zeros((1, len(sp)))
        self.reuse = rng.random() < .3

    def point(self):
        rng, sp = self.rng, self.sp
        k = rng.random()
        if k < .1:
            x = np.where(rng.random(len(sp)) < .5, sp[:, 0], sp[:, 1])
        else:
            x = uniform(rng, sp, 1)[0]
        form = 1 if self.reuse else rng.random()
        if form < .4:
            return x
        if form < .9:
            return x[None]
        self.buf[0] = x         # its own array, overwritten by later calls
        return self.buf


class SFScripted(SFUnConsAcq):
    def __init__(self, prop):
        super().__init__(optimizer=None)
        self.prop = prop

    def eval(self, x, surrogate):
        return np.zeros(len(np.atleast_2d(x)))

    def query(self, surrogate):
        x = self.prop.point()
        self.prop.log.append(("query", dict(x=np.array(x).ravel(),
                                            models=[snap_sf(surrogate)])))
        return x


class ConsScripted(SFConsAcq):
    def __init__(self, prop):
        super().__init__(optimizer=None)
        self.prop = prop

    def eval(self, x, obj_surrogate, cons_surrogates):
        return np.zeros(len(np.atleast_2d(x)))

    def query(self, obj_surrogate, cons_surrogate):
        x = self.prop.point()
        self.prop.log.append(("query", dict(
            x=np.array(x).ravel(), models=[snap_sf(obj_surrogate)] + [
                snap_sf(c) for c in cons_surrogate])))
        return x


class MFScripted(MFUnConsAcq):
    def __init__(self, prop, p=.5):
        self.prop, self.p = prop, p

    def eval(self, x, mf_surrogate, cost_ratio, fidelity):
        return np.zeros(len(np.atleast_2d(x)))

    def query(self, mf_surrogate, cost_ratio=1.0, fmin=1.0):
        x = self.prop.point()
        fid = int(self.prop.rng.random() < self.p)
        self.prop.log.append(("query", dict(
            x=np.array(x).ravel(), fid=fid, cost_ratio=cost_ratio, fmin=fmin,
            model=snap_mf(mf_surrogate))))
        return x, fid


class Watch:
    """a real acquisition whose queries are recorded"""

    def __new__(cls, base, log, mf=False, **kw):
        class Watched(base):
            def query(self, *a, **k):
                names = ("mf_surrogate", "cost_ratio", "fmin") if mf else (
                    "obj_surrogate", "cons_surrogate") if issubclass(
                        base, SFConsAcq) else ("surrogate",)
                z = dict(zip(names, a), **k)
                out = super().query(**z)
                if mf:
                    log.append(("query", dict(
                        x=np.array(out[0], float).ravel(), fid=int(out[1]),
                        cost_ratio=z["cost_ratio"], fmin=z["fmin"],
                        model=snap_mf(z["mf_surrogate"]))))
                else:
                    ms = [z[names[0]]] + list(z.get("cons_surrogate", []))
                    log.append(("query", dict(
                        x=np.array(out, float).ravel(),
                        models=[snap_sf(m) for m in ms])))
                return out
        return Watched(**kw)


def values(rng, n, kind):
    """answers of a scripted black box; never all equal at the start"""
    if kind == "ties":
        v = rng.integers(0, 4, n).astype(float)
    elif kind == "falling":
        v = -np.arange(n) + rng.integers(0, 3, n) * 1.0
    elif kind == "rising":
        v = np.arange(n) + rng.integers(0, 3, n) * 1.0
    elif kind == "close":       # improvements in the last digits only
        v = 1 - np.cumsum(rng.integers(-1, 3, n)) * 2.0**-int(
            rng.integers(20, 50))
    else:
        v = np.round(rng.normal(size=n) * 4, 3)
    v[0], v[1] = 3.0, 1.0
    return v


def objective(rng, sp, n=100):
    """smooth or scripted objective"""
    k = str(rng.choice(["smooth", "ties", "falling", "rising", "noise",
                        "close"]))
    if k == "smooth":
        return k, Smooth(rng, sp)
    return k, Script(values(rng, n, k))


def achieved(mon, log_x, log_y, best, best_x, what, det):
    """best_x (one or more rows) are samples with exactly the value best"""
    bx = np.atleast_2d(np.asarray(best_x, float))
    if not mon.check(bx.size and bx.shape[1] == log_x.shape[1], what,
                     f"{best_x}; {det}"):
        return
    ok = all(((log_x == r).all(1) & (log_y.ravel() == best)).any()
             for r in bx)
    mon.check(ok, what, lambda: f"{best} at {bx.tolist()}; {det}")


__all__ = ["BayesUnConsOpt", "BayesConsOpt", "mfUnConsBayesOpt", "space"]
