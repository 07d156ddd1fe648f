"""Workload generators, recording stand-ins and reference models.

Imported once before the worker processes are forked, so that mfpml (and the
recording wrapper around scipy's local search) is loaded exactly once.
"""
import numpy as np
import scipy.optimize as _so
from scipy.stats import qmc

# ----------------------------------------------------- local-search log ---
MINLOG = []
_real_minimize = _so.minimize


def _recording_minimize(fun, x0, *a, **k):
    res = _real_minimize(fun, x0, *a, **k)
    try:
        MINLOG.append(dict(
            fun=fun, x0=np.array(x0, float).ravel().copy(),
            x=np.array(res.x, float).ravel().copy(),
            f=float(np.asarray(res.fun).ravel()[0]),
            bounds=k.get("bounds")))
    except Exception:       # the log must never disturb the code it watches
        pass
    return res


_so.minimize = _recording_minimize
import matplotlib                                            # noqa: E402
matplotlib.use("Agg")
import matplotlib.pyplot as plt                              # noqa: E402,F401
from mfpml.models.gaussian_process import \
    GaussianProcessRegression as GP                          # noqa: E402
from mfpml.models.hierarchical_kriging import \
    HierarchicalKriging as HK                                # noqa: E402
from mfpml.models.scale_kriging import \
    ScaledKriging as SK                                      # noqa: E402
from mfpml.models.co_kriging import CoKriging as CK          # noqa: E402
from mfpml.models.kernels import RBF                         # noqa: E402
from mfpml.models import basis_functions as BF               # noqa: E402
import mfpml.design_of_experiment.sf_samplers                # noqa: E402,F401
import mfpml.design_of_experiment.mf_samplers                # noqa: E402,F401
import mfpml.visualization.samplers_visualization            # noqa: E402,F401
import mfpml.problems.sf_functions                           # noqa: E402,F401
import mfpml.problems.sf_cons_functions                      # noqa: E402,F401
import mfpml.problems.mf_functions                           # noqa: E402,F401
import mfpml.optimization.evolutionary_algorithms            # noqa: E402,F401
import mfpml.optimization.sf_uncons_bo                       # noqa: E402,F401
import mfpml.optimization.sf_cons_bo                         # noqa: E402,F401
import mfpml.optimization.mf_uncons_bo                       # noqa: E402,F401

EPS = np.finfo(float).eps
NUG = 1e-10


# ------------------------------------------------------------- helpers ----
def R(spec, *more):
    return np.random.default_rng([spec["seed"], *more])


SPACE_KINDS = ["unit", "neg", "wide", "tiny", "mixed", "int", "sym", "far"]


def space(rng, d, kind=None):
    """random design space (d, 2) with lower < upper"""
    kind = kind or SPACE_KINDS[rng.integers(len(SPACE_KINDS))]
    if kind == "unit":
        return np.tile([0.0, 1.0], (d, 1))
    if kind == "int":
        lo = rng.integers(-20, 20, d)
        return np.stack([lo, lo + rng.integers(1, 30, d)], 1)
    if kind == "sym":
        h = 10.0 ** rng.uniform(-1, 2, d)
        return np.stack([-h, h], 1)
    if kind == "neg":
        hi = -rng.uniform(0.1, 50, d)
        return np.stack([hi - rng.uniform(0.1, 20, d), hi], 1)
    if kind == "wide":
        lo = rng.uniform(-1e6, 1e6, d)
        return np.stack([lo, lo + 10.0 ** rng.uniform(4, 7, d)], 1)
    if kind == "tiny":
        lo = rng.uniform(-1, 1, d)
        return np.stack([lo, lo + 10.0 ** rng.uniform(-5, -2, d)], 1)
    if kind == "far":
        lo = rng.choice([-1, 1], d) * 10.0 ** rng.uniform(2, 3.5, d)
        return np.stack([lo, lo + rng.uniform(1, 5, d)], 1)
    lo = rng.choice([-1, 1], d) * 10.0 ** rng.uniform(-2, 3, d)
    return np.stack([lo, lo + 10.0 ** rng.uniform(-1.5, 3, d)], 1)


def lhs(rng, sp, n):
    u = qmc.LatinHypercube(len(sp), seed=int(rng.integers(2**31))).random(n)
    return sp[:, 0] + u * (sp[:, 1] - sp[:, 0])


def uniform(rng, sp, n):
    return sp[:, 0] + rng.random((n, len(sp))) * (sp[:, 1] - sp[:, 0])


class Smooth:
    """random smooth function of the unit-scaled variables"""

    def __init__(self, rng, sp, scale=None, offset=None):
        d = len(sp)
        self.sp = np.asarray(sp, float)
        self.w = rng.normal(size=(3, d)) * rng.uniform(0.5, 3)
        self.p = rng.uniform(0, 6, 3)
        self.a = rng.normal(size=3)
        self.q = rng.normal(size=d)
        self.s = 10.0 ** rng.uniform(-2, 3) if scale is None else scale
        self.o = (rng.normal() * 3 * self.s if offset is None else offset)

    def __call__(self, X):
        u = (np.asarray(X, float) - self.sp[:, 0]) / (
            self.sp[:, 1] - self.sp[:, 0])
        y = (np.sin(u @ self.w.T + self.p) @ self.a
             + ((u - 0.4)**2) @ self.q)
        return (self.s * y + self.o).reshape(-1, 1)


def freeze(*arrs):
    return [np.array(a, copy=True) for a in arrs]


# ---------------------------------------------------- optimizer stand-ins -
class StubOptimizer:
    """Optimizer plug-in that answers with scripted values and records what
    it was asked.  `answers`: list of vectors, or callable(call_index, space)
    """

    def __init__(self, answers):
        self.answers = answers
        self.calls = []
        self.num_gen = 1
        self.probe = None       # vector -> points where func is evaluated

    def run_optimizer(self, func, num_dim, design_space, print_info=False,
                      save_step_results=False, stopping_error=None, args=()):
        k = len(self.calls)
        if callable(self.answers):
            x = self.answers(k, np.asarray(design_space, float), func, args)
        else:
            x = self.answers[min(k, len(self.answers) - 1)]
        x = np.array(x, float)
        seen = None if self.probe is None else np.ravel(
            func(self.probe(k, x.copy()), *args)).astype(float)
        v = float(np.asarray(func(x.reshape(1, -1), *args)).ravel()[0])
        self.calls.append(dict(
            func=func, num_dim=num_dim, args=args, x=x.copy(), value=v, seen=seen,
            space=np.array(design_space, float)))
        return ({"best_x": x.copy(), "best_y": np.array([v])}, v, x.copy())

    def plot_optimization_history(self, *a, **k):
        pass


def thetas(rng, U, lo=-2.0, hi=2.5, noise=0.0, condmax=1e7):
    """log10 correlation parameters that keep the matrix well conditioned"""
    d = U.shape[1]
    th = rng.uniform(lo + 0.3, hi - 0.3, d)
    for _ in range(40):
        K = corr(U, U, 10.0**th) + (NUG + noise**2) * np.eye(len(U))
        if np.linalg.cond(K) <= condmax:
            break
        th = np.minimum(th + 0.3, hi - 0.01)
    return th


# -------------------------------------------------------- reference models
def corr(A, B, theta):
    D = (A[:, None, :] - B[None, :, :])**2
    return np.exp(-(D * np.ravel(theta)).sum(-1))


def unit(X, sp):
    sp = np.asarray(sp, float)
    return (np.asarray(X, float) - sp[:, 0]) / (sp[:, 1] - sp[:, 0])


def basis(name, U):
    n, d = U.shape
    cols = [np.ones(n)]
    if name in ("linear", "quadratic"):
        cols += [U[:, k] for k in range(d)]
    if name == "quadratic":
        cols += [U[:, i] * U[:, j] for i in range(d) for j in range(i, d)]
    return np.stack(cols, 1)


class RefKriging:
    """Universal kriging on given (already standardized) responses, solved as
    one saddle-point system; s = relative noise (standard deviation)."""

    def __init__(self, U, F, y, theta, s):
        n, p = F.shape
        y = np.ravel(y)
        self.U, self.F, self.theta, self.s = U, F, np.ravel(theta), float(s)
        K = corr(U, U, self.theta) + (NUG + self.s**2) * np.eye(n)
        self.K = K
        A = np.block([[K, F], [F.T, np.zeros((p, p))]])
        self.n, self.p = n, p
        # equilibrate the trend columns, they may be far from unit size
        w = np.concatenate([np.ones(n), 1 / np.maximum(
            np.abs(F).max(0), 1e-300)])
        self.w = w
        self.A = A * w[:, None] * w[None, :]
        self.cond = np.linalg.cond(self.A)
        sol = np.linalg.solve(self.A, np.concatenate([y, np.zeros(p)]))
        sol = sol * w
        self.gamma, self.beta = sol[:n], sol[n:]
        r = y - F @ self.beta
        self.sigma2 = float(r @ self.gamma) / n
        self.resid = r
        self.y = y
        self.reach = self.vreach = 0.0

    def mean_var(self, V, FV):
        """standardized mean and variance (without noise) at unit points V"""
        k = corr(self.U, V, self.theta)
        b = np.vstack([k, FV.T]) * self.w[:, None]
        mean = k.T @ self.gamma + FV @ self.beta
        z = np.linalg.solve(self.A, b)
        var = self.sigma2 * (1 - np.sum(b * z, 0))
        # how large predictions get (far more than the data in gaps and
        # beyond the data), for the tolerances
        self.reach = np.abs(mean).max()
        self.vreach = np.abs(var).max()
        return mean, var

    def nll(self, noise_free):
        n = self.n
        ld = 0.5 * np.linalg.slogdet(self.K)[1]
        if noise_free:
            return 0.5 * n * np.log(self.sigma2) + ld
        return 0.5 * n * self.sigma2 + ld


class RefGP:
    """reference of GaussianProcessRegression; noise in response units"""

    def __init__(self, sp, X, y, theta, noise, regr="ordinary"):
        self.sp = np.asarray(sp, float)
        y = np.ravel(np.asarray(y, float))
        self.m, self.sd = y.mean(), y.std()
        self.noise, self.regr = float(noise), regr
        self.U = unit(X, sp)
        self.k = RefKriging(self.U, basis(regr, self.U),
                            (y - self.m) / self.sd, theta,
                            self.noise / self.sd)
        self.cond = self.k.cond

    def predict(self, X):
        """mean, variance incl. noise, both (n, 1)"""
        V = unit(X, self.sp)
        mu, var = self.k.mean_var(V, basis(self.regr, V))
        mean = mu * self.sd + self.m
        return (mean.reshape(-1, 1),
                (var * self.sd**2 + self.noise**2).reshape(-1, 1))

    def tols(self, C=400):
        t = 1e-10 + C * self.cond * EPS
        ymax = np.abs(self.k.y).max() + np.abs(
            self.k.beta).max() + self.k.reach
        return (t * (self.sd * ymax + abs(self.m) * 1e-3) + 1e-13 *
                abs(self.m),
                t * ((self.k.sigma2 + ymax**2 + self.k.vreach) * self.sd**2
                     + self.noise**2))


class RefHK:
    """reference of HierarchicalKriging"""

    def __init__(self, sp, Xh, yh, lf_predict, theta, noise):
        self.sp = np.asarray(sp, float)
        yh = np.ravel(np.asarray(yh, float))
        self.m, self.sd, self.noise = yh.mean(), yh.std(), float(noise)
        self.lf = lf_predict
        U = unit(Xh, sp)
        F = ((np.ravel(lf_predict(Xh)) - self.m) / self.sd).reshape(-1, 1)
        self.k = RefKriging(U, F, (yh - self.m) / self.sd, theta,
                            self.noise / self.sd)
        self.cond = self.k.cond

    def predict(self, X):
        V = unit(X, self.sp)
        F = ((np.ravel(self.lf(X)) - self.m) / self.sd).reshape(-1, 1)
        mu, var = self.k.mean_var(V, F)
        mean = mu * self.sd + self.m
        return (mean.reshape(-1, 1),
                (var * self.sd**2 + self.noise**2).reshape(-1, 1), F)

    def tols(self, F, C=400):
        t = 1e-10 + C * self.cond * EPS
        fm = max(np.abs(self.k.F).max(), np.abs(F).max(), 1.0)
        ratio = fm / max(np.abs(self.k.F).max(), 1e-12)
        ymax = np.abs(self.k.y).max() + np.abs(
            self.k.beta).max() * fm + self.k.reach
        return (t * ratio * self.sd * ymax + 1e-13 * abs(self.m),
                t * ratio**2 * ((self.k.sigma2 + ymax**2 + self.k.vreach)
                                * self.sd**2 + self.noise**2))


class RefCK:
    """reference of CoKriging: Kennedy-O'Hagan conditional given both data
    sets, on the scale of the standardized high-fidelity responses.
    noise: in units of the responses (None is resolved by the caller)"""

    def __init__(self, sp, Xh, yh, Xl, yl, rho, th_l, th_d, noise_l,
                 noise_d):
        self.sp = np.asarray(sp, float)
        yh, yl = np.ravel(np.asarray(yh, float)), np.ravel(
            np.asarray(yl, float))
        self.m, self.sd = yh.mean(), yh.std()
        self.Uh, self.Ul = unit(Xh, sp), unit(Xl, sp)
        self.rho, self.th_l, self.th_d = float(rho), np.ravel(th_l), \
            np.ravel(th_d)
        sl, sd = float(noise_l) / self.sd, float(noise_d) / self.sd
        self.noise = float(noise_d)
        zh, zl = (yh - self.m) / self.sd, (yl - self.m) / self.sd
        nl, nh = len(zl), len(zh)
        self.lf = RefKriging(self.Ul, np.ones((nl, 1)), zl, self.th_l, sl)
        V = np.ones((nh, 1))
        zlh, _ = self.lf.mean_var(self.Uh, V)
        self.diff = RefKriging(self.Uh, V, zh - self.rho * zlh, self.th_d,
                               sd)
        s2l, s2d = self.lf.sigma2, self.diff.sigma2
        self.s2l, self.s2d = s2l, s2d
        Klh = corr(self.Ul, self.Uh, self.th_l)
        Khh = corr(self.Uh, self.Uh, self.th_l) + NUG * np.eye(nh)
        self.C = np.block([
            [s2l * self.lf.K, self.rho * s2l * Klh],
            [self.rho * s2l * Klh.T, self.rho**2 * s2l * Khh
             + s2d * self.diff.K]])
        self.Cn = self.C + NUG * np.eye(nl + nh)
        self.z = np.concatenate([zl, zh])
        one = np.ones(nl + nh)
        a = np.linalg.solve(self.Cn, np.stack([self.z, one], 1))
        self.mu = (one @ a[:, 0]) / (one @ a[:, 1])
        self.w = np.linalg.solve(self.Cn, self.z - self.mu)
        self.cond = max(np.linalg.cond(self.Cn), self.lf.cond,
                        self.diff.cond)

    def predict(self, X):
        V = unit(X, self.sp)
        c = np.vstack([
            self.rho * self.s2l * corr(self.Ul, V, self.th_l),
            self.rho**2 * self.s2l * corr(self.Uh, V, self.th_l)
            + self.s2d * corr(self.Uh, V, self.th_d)])
        mean = self.mu + c.T @ self.w
        var = self.rho**2 * self.s2l + self.s2d - np.sum(
            c * np.linalg.solve(self.Cn, c), 0)
        self.reach = np.abs(mean).max()
        return ((mean * self.sd + self.m).reshape(-1, 1),
                (np.maximum(var, 0) * self.sd**2
                 + self.noise**2).reshape(-1, 1))

    def predict_lf(self, X):
        V = unit(X, self.sp)
        mu, var = self.lf.mean_var(V, np.ones((len(V), 1)))
        return ((mu * self.sd + self.m).reshape(-1, 1),
                (np.maximum(var, 0) * self.sd**2
                 + (self.lf.s * self.sd)**2).reshape(-1, 1))

    def tols(self, C=400):
        t = 1e-10 + C * self.cond * EPS
        zmax = np.abs(self.z).max() * max(1, self.rho) + getattr(
            self, "reach", 0.0)
        return (t * self.sd * zmax + 1e-13 * abs(self.m),
                t * (self.sd**2 * (self.rho**2 * self.s2l + self.s2d)
                     + self.noise**2))

    def tols_lf(self, C=400):
        t = 1e-10 + C * self.lf.cond * EPS
        return (t * self.sd * (np.abs(self.z).max() + self.lf.reach)
                + 1e-13 * abs(self.m), t * self.sd**2 * (self.s2l + self.lf.s**2))


# ------------------------------------------------------- data for models --
def gp_data(rng, d, n, kind=None, noise=0.0):
    sp = space(rng, d, kind).astype(float)
    f = Smooth(rng, sp)
    X = lhs(rng, sp, n)
    y = f(X)
    if noise:
        y = y + noise * y.std() * rng.normal(size=y.shape)
    return sp, f, X, y


def mf_data(rng, d, nh, nl, kind=None, noise=0.0, nested=False, rho=None):
    """[Xh, Xl], [yh, yl] of a random two-fidelity pair"""
    sp = space(rng, d, kind).astype(float)
    lf = Smooth(rng, sp)
    dis = Smooth(rng, sp, scale=lf.s * rng.uniform(0.1, 0.7))
    a = rng.uniform(0.5, 2.0) if rho is None else rho
    hf = lambda X: a * lf(X) + dis(X)                       # noqa: E731
    Xl = lhs(rng, sp, nl)
    Xh = Xl[rng.permutation(nl)[:nh]] if nested else lhs(rng, sp, nh)
    yh, yl = hf(Xh), lf(Xl)
    if noise:
        yh = yh + noise * yh.std() * rng.normal(size=yh.shape)
        yl = yl + noise * yl.std() * rng.normal(size=yl.shape)
    return sp, hf, lf, [Xh.copy(), Xl], [yh, yl]


def query_points(rng, sp, X, n=12, near=True):
    """random, corner, training and near-training points of the space"""
    sp = np.asarray(sp, float)
    P = [uniform(rng, sp, n),
         np.where(rng.random((2, len(sp))) < .5, sp[:, 0], sp[:, 1]),
         X[rng.integers(len(X), size=min(3, len(X)))]]
    if near:
        P.append(np.clip(X[rng.integers(len(X), size=2)] + 1e-3 * rng.normal(
            size=(2, len(sp))) * (sp[:, 1] - sp[:, 0]), sp[:, 0], sp[:, 1]))
    return np.vstack(P)


def variants(X, rng):
    """the same points in other memory layouts"""
    big = np.full((2 * len(X), X.shape[1] + 2), 7.7)
    big[::2, 1:-1] = X
    return [("C", np.ascontiguousarray(X)), ("F", np.asfortranarray(X)),
            ("strided", big[::2, 1:-1]),
            ("reversed view", np.ascontiguousarray(X[::-1])[::-1])]


def state(obj, depth=0, seen=None):
    """deep snapshot of the numeric state of an object, for purity checks"""
    seen = set() if seen is None else seen
    if id(obj) in seen or depth > 4:
        return None
    if isinstance(obj, np.ndarray):
        return ("a", obj.shape, str(obj.dtype), obj.tobytes()
                if obj.dtype != object else repr(obj))
    if isinstance(obj, (int, float, str, bool, np.generic, type(None))):
        return repr(obj)
    seen = seen | {id(obj)}
    if isinstance(obj, (list, tuple)):
        return tuple(state(o, depth + 1, seen) for o in obj)
    if isinstance(obj, dict):
        return tuple((k, state(v, depth + 1, seen)) for k, v in obj.items())
    if hasattr(obj, "__dict__"):
        return tuple((k, state(v, depth + 1, seen))
                     for k, v in sorted(vars(obj).items()))
    return type(obj).__name__
