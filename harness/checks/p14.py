"""P14: hyper-parameters are the best of the requested search, in bounds"""
import numpy as np

from harness.gen import (CK, EPS, GP, HK, MINLOG, RBF, R, SK, BF,
                         RefKriging, basis, unit)
from harness.surr import KINDS, Case

RULE = ("a case trains one surrogate with the default search (recording every "
        "scipy local search) or with a plugged-in optimizer (recording what "
        "it is handed) and recomputes every likelihood with the reference; "
        "non-trivial: each (surrogate, noise setting, search, restarts, "
        "dimension)")
MIN = {"default searches judged": 250, "plug-in searches judged": 600,
       "objective values compared": 4000, "local optima probed": 150,
       "repository optimizers": 40,
       "reported log-likelihoods judged": 500,
       "large training sets": 12}
NOISE_BOUNDS = [1e-5, 10.0]


def cases(tier, rng):
    m = 4 if tier == "quick" else 25
    out = []
    for k in KINDS:
        out += [dict(kind=k, how="default") for _ in range(70 * m)]
        out += [dict(kind=k, how="stub") for _ in range(110 * m)]
        out += [dict(kind=k, how="ea") for _ in range(15 * m)]
    return out


class Search:
    """one expected search: bounds and the reference objective"""

    def __init__(self, name, U, F, y, noise, kb, rho=None, ylow=None):
        self.name, self.U, self.F, self.y = name, U, F, np.ravel(y)
        self.noise = noise              # relative; None when estimated
        self.rho, self.ylow = rho, ylow
        d = U.shape[1]
        rows = ([rho] if rho is not None else [])
        nb = [NOISE_BOUNDS] if noise is None else []
        kern = [list(kb)] * d
        # co-kriging: [rho, noise, theta], others [theta, noise]
        self.bounds = np.array(rows + (nb + kern if rho is not None
                                       else kern + nb), float)
        self.dim = len(self.bounds)

    def fit(self, p):
        p = np.ravel(np.asarray(p, float))
        y = self.y
        if self.rho is not None:
            y, p = y - p[0] * np.ravel(self.ylow), p[1:]
            s, th = (p[0], p[1:]) if self.noise is None else (self.noise, p)
        else:
            s, th = (p[-1], p[:-1]) if self.noise is None else (self.noise, p)
        return RefKriging(self.U, self.F, y, 10.0**th, s)

    def nll(self, p):
        """value and an error bound of it"""
        k = self.fit(p)
        v = k.nll(self.noise == 0.0)
        n = k.n
        rel = 300 * k.cond * EPS + 1e-10
        if self.noise == 0.0:
            t = n * rel * (1 + np.abs(k.resid).max()**2
                           / max(k.sigma2, 1e-300) * 1e-3)
        else:
            t = n * rel * max(k.sigma2, 1)
        return v, t + 1e-9 * (1 + abs(v))


def run(spec, mon):
    rng = R(spec)
    kind, how = spec["kind"], spec["how"]
    huge = how == "stub" and rng.random() < .03
    c = Case(rng, kind, default=True, d=int(rng.integers(
        1, 4 if rng.random() < .93 else 9)),
             restart=int(rng.choice([0, 1, 2, 3, 12], p=[
                 .25, .25, .23, .23, .04])),
             nl=(int(rng.integers(120, 270)) if huge else None))
    if huge:
        mon.event("large training sets")
    kb = [-2.0, 3.0]
    kw = {}
    rb = [1e-2, 1e2]
    if kind == "SK":
        kb = [-4.0, 3.0]
    if rng.random() < .5:
        kb = [float(rng.uniform(-2, 0)), float(rng.uniform(.3, 3))]
        if kind == "GP":
            kw["kernel"] = RBF(np.zeros(c.d), bounds=list(kb))
        else:
            kw["kernel_bound"] = list(kb)
    if kind == "CK" and rng.random() < .5:
        rb = [float(rng.uniform(.05, .9)), float(rng.uniform(1.1, 8))]
        kw["rho_bound"] = list(rb)
    regr = "ordinary"
    if kind == "GP":
        regr = str(rng.choice(["ordinary", "linear", "quadratic"][
            :3 if c.d < 3 else 2]))
        kw["regr"] = dict(ordinary=BF.Ordinary, linear=BF.Linear,
                          quadratic=BF.Quadratic)[regr]()
    opt = Recorder(how, rng, c.prior is None) if how != "default" else None
    cls = dict(GP=GP, HK=HK, SK=SK, CK=CK)[kind]
    swap = kind == "GP" and how == "stub" and rng.random() < .3
    m = cls(c.sp.copy(), optimizer=None if swap else opt,
            noise_prior=c.prior, optimizer_restart=c.restart, **kw)
    if swap:
        m.change_optimizer(opt)
        mon.event("optimizer changed")
    rounds = 2 if rng.random() < .25 else 1     # retraining searches again
    for _ in range(rounds):
        MINLOG.clear()
        if opt is not None:
            opt.calls.clear()
        m.train(*c.args())
        log = list(MINLOG)
    MINLOG.clear()
    det = (f"{kind} {regr} d={c.d} {c.mode} {how} restart={c.restart} "
           f"kb={kb}")
    # ---- what should have been searched -----------------------------------
    U = [unit(x, c.sp) for x in c.X]
    one = [np.ones((len(u), 1)) for u in U]
    z = [(y - y.mean()) / y.std() for y in c.Y]
    est = c.prior is None

    def rel(y):
        return None if est else c.prior / float(y.std())
    if kind == "GP":
        S = [Search("model", U[0], basis(regr, U[0]), z[0], rel(c.Y[0]), kb)]
        used = [(m.kernel, m.noise / c.Y[0].std())]
    else:
        L = Search("low fidelity", U[1], one[1], z[1], rel(c.Y[1]),
                   [-2.0, 3.0])
        lf_at = np.asarray(m.predict_lf(c.X[0].copy()))
        zh = z[0]
        if kind == "HK":
            F = (lf_at - c.Y[0].mean()) / c.Y[0].std()
            S = [L, Search("high fidelity", U[0], F, zh, rel(c.Y[0]), kb)]
            used = [(m.lfGP.kernel, m.lfGP.noise / c.Y[1].std()),
                    (m.kernel, m.noise / c.Y[0].std())]
        elif kind == "SK":
            dy = c.Y[0] - lf_at
            S = [L, Search("discrepancy", U[0], one[0],
                           (dy - dy.mean()) / dy.std(), rel(dy), kb)]
            used = [(m.lfGP.kernel, m.lfGP.noise / c.Y[1].std()),
                    (m.disc_model.kernel, m.disc_model.noise / dy.std())]
        else:
            sd, mu = c.Y[0].std(), c.Y[0].mean()
            L = Search("low fidelity", U[1], one[1], (c.Y[1] - mu) / sd,
                       rel(c.Y[0]), [-2.0, 3.0])
            S = [L, Search("difference", U[0], one[0], zh, rel(c.Y[0]), kb,
                           rb, (lf_at - mu) / sd)]
            used = [(m.lfGP.kernel, m.lfGP.noise), (m.kernel, m.noise)]
    owner = [m] if kind == "GP" else [
        m.lfGP, m.disc_model if kind == "SK" else m]
    per = c.restart + 1
    if how == "default":
        if not mon.check(len(log) == per * len(S),
                         "restart + 1 local searches per model",
                         f"{len(log)} for {len(S)} models; {det}"):
            return
    else:
        mon.check(len(log) == 0, "the plugged-in optimizer replaces the "
                  "default search", det)
        if not mon.check(len(opt.calls) == len(S),
                         "the plugged-in optimizer does every search",
                         f"{len(opt.calls)} calls; {det}"):
            return
    for i, s in enumerate(S):
        kern, noise = used[i]
        th = np.log10(np.ravel(np.asarray(kern.param, float)))
        rho = [float(np.ravel(m.rho)[0])] if s.rho is not None else []
        nz = [float(noise)] if est else []
        p = np.array(rho + nz + list(th) if s.rho is not None
                     else list(th) + nz)
        dets = f"{s.name}: {det} adopted={p.tolist()}"
        b = s.bounds
        mon.check((p >= b[:, 0] - 1e-9 * (1 + np.abs(b[:, 0]))).all()
                  and (p <= b[:, 1] + 1e-9 * (1 + np.abs(b[:, 1]))).all(),
                  "adopted parameters are inside their bounds",
                  f"{b.tolist()} {dets}")
        if not est:
            mon.close(float(noise), s.noise, 1e-9 * s.noise,
                      "a known noise is kept", dets)
        f, tf = s.nll(p)
        said = getattr(owner[i], "logp", None)
        if said is not None and tf < 1e-2 * (1 + abs(f)):
            mon.close(float(said), -f, tf, "the reported log-likelihood is "
                      "that of the adopted parameters", dets)
            mon.event("reported log-likelihoods judged")
        if how == "default":
            mine = log[i * per:(i + 1) * per]
            best = min(mine, key=lambda e: e["f"])
            for e in mine:
                lo, hi = as_bounds(e["bounds"])
                mon.same(np.stack([lo, hi], 1), b,
                         "the search gets the true bounds", dets)
                mon.check((e["x0"] >= b[:, 0]).all()
                          and (e["x0"] <= b[:, 1]).all(),
                          "starting points are inside the bounds", dets)
                fe, te = s.nll(e["x"])
                if te < 1e-2 * (1 + abs(fe)):
                    mon.close(e["f"], fe, te, "the search minimizes the "
                              "negative log-likelihood", dets)
                    mon.event("objective values compared")
                mon.check(f <= fe + tf + te, "the best local search is "
                          "adopted", f"{f} > {fe} {dets}")
                f0, t0 = s.nll(e["x0"])
                mon.check(f <= f0 + tf + t0, "no starting point is better",
                          f"{f} > {f0} {dets}")
            tie = [e["x"] for e in mine
                   if e["f"] <= best["f"] + 1e-10 * (1 + abs(best["f"]))]
            mon.check(any((np.abs(p - x) <= 1e-7 * (1 + np.abs(x))).all()
                          for x in tie),
                      "the adopted parameters are those of the best search",
                      lambda: f"{best['x'].tolist()} {dets}")
            x0 = np.array([e["x0"] for e in mine])
            mon.check(len(np.unique(x0, axis=0)) == per,
                      "searches start from different points", dets)
            mon.event("default searches judged")
            # nothing clearly better in the immediate neighbourhood
            if tf < 1e-5 * (1 + abs(f)):
                gain = 0.0
                for q in probes(p, rng):
                    q = np.clip(q, b[:, 0], b[:, 1])
                    fq, tq = s.nll(q)
                    if tq < 1e-5 * (1 + abs(f)):
                        gain = max(gain, f - fq)
                mon.check(gain <= GAIN * (1 + abs(f)),
                          "the adopted parameters are locally optimal",
                          f"better by {gain} of {f} nearby; {dets}")
                mon.event("local optima probed")
                if gain > SMALL * (1 + abs(f)):
                    mon.event("local optima improvable")
                if mon.sample is None or gain > mon.sample.get("gain", 0):
                    mon.sample = dict(search=s.name, gain=gain, nll=f,
                                      kind=kind)
        else:
            call = opt.calls[i]
            mon.check(call["num_dim"] == s.dim, "the optimizer gets the true "
                      "dimension", f"{call['num_dim']} {dets}")
            mon.same(call["space"], b, "the optimizer gets the true bounds",
                     dets)
            mon.close(p, call["x"], 1e-9 * (1 + np.abs(call["x"])),
                      "the answer of the optimizer is adopted", dets)
            for X, v in call["probes"]:
                ref = [s.nll(x) for x in np.atleast_2d(X)]
                fr = np.array([a for a, _ in ref])
                tr = np.array([t for _, t in ref])
                mon.check(np.size(v) == len(fr), "one objective value per "
                          "parameter vector", f"{np.shape(v)} {dets}")
                ok = tr < 1e-2 * (1 + np.abs(fr))
                mon.close(np.ravel(v)[ok], fr[ok], tr[ok],
                          "the objective is the negative log-likelihood",
                          dets)
                mon.event("objective values compared", int(ok.sum()))
            mon.event("plug-in searches judged")
            if how == "ea":
                mon.event("repository optimizers")
        mon.state(kind, s.name, c.mode, how, c.restart, c.d)


def as_bounds(b):
    if hasattr(b, "lb"):
        return np.asarray(b.lb, float), np.asarray(b.ub, float)
    b = np.asarray(b, float)
    return b[:, 0], b[:, 1]


STEP = 0.01       # decades of theta, units of the relative noise and of rho
# L-BFGS-B on a finite-difference gradient gives up early now and then: of
# 10800 adopted optima 1 % could be improved by more than 1e-6, 0.1 % by more
# than 8e-3, the worst by 0.04 (relative to 1 + |nll|)
GAIN, SMALL = 0.2, 1e-4


def finish(counts):
    n, k = counts["local optima probed"], counts["local optima improvable"]
    if k > 0.05 * n + 8:
        yield (f"adopted parameters are locally optimal: {k} of {n} could be "
               "improved next to where the search stopped")


def probes(p, rng):
    for k in range(len(p)):
        for h in (-STEP, STEP, -STEP / 10, STEP / 10):
            q = p.copy()
            q[k] += h
            yield q
    for _ in range(4):
        yield p + STEP * rng.uniform(-1, 1, len(p))


class Recorder:
    """optimizer plug-in: scripted point or one of the repository's"""

    def __init__(self, how, rng, est):
        self.how, self.rng, self.est, self.calls = how, rng, est, []

    def run_optimizer(self, func, num_dim, design_space, print_info=False,
                      save_step_results=False, stopping_error=None, args=()):
        sp = np.array(design_space, float)
        probes = []
        for n in (4, 1, 5):
            X = sp[:, 0] + self.rng.random((n, len(sp))) * (
                sp[:, 1] - sp[:, 0])
            if self.est and n == 5:     # of small noise
                k = [i for i, b in enumerate(sp)
                     if np.allclose(b, NOISE_BOUNDS)]
                X[:, k] = 10.0**self.rng.uniform(-5, 0, (n, len(k)))
            elif n == 5:                # on the bounds
                X = np.where(self.rng.random(X.shape) < .5, X, np.where(
                    self.rng.random(X.shape) < .5, sp[:, 0], sp[:, 1]))
            probes.append((X.copy(), np.array(func(X, *args), float)))
        probes.append((X[0].copy(), np.array(func(X[0].copy(), *args))))
        if self.how == "stub":
            x = sp[:, 0] + self.rng.uniform(.3, .7, len(sp)) * (
                sp[:, 1] - sp[:, 0])
            v = float(np.ravel(func(x.reshape(1, -1), *args))[0])
            out = ({"best_x": x.copy(), "best_y": np.array([v])}, v, x.copy())
        else:
            from mfpml.optimization.evolutionary_algorithms import DE, PSO
            o = (DE if self.rng.random() < .5 else PSO)(
                num_gen=int(self.rng.integers(2, 6)), num_pop=8)
            out = o.run_optimizer(func, num_dim=num_dim,
                                  design_space=design_space)
            x = np.ravel(out[0]["best_x"]).astype(float)
        self.calls.append(dict(num_dim=num_dim, space=sp, probes=probes,
                               x=np.array(x, float).ravel()))
        return out

    def plot_optimization_history(self, *a, **k):
        pass

