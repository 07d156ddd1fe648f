"""P27: acquisition queries return the optimizer of the acquisition"""
import numpy as np
from scipy.optimize import brentq, minimize
from scipy.stats import qmc

from harness.gen import R, gp_data, uniform
from harness.checks.p26 import WARP
from harness.surr import Case, public_state
from mfpml.optimization.evolutionary_algorithms import DE, PSO
from mfpml.optimization.mf_acqusitions import (AugmentedEI, ExtendedPI, VFEI,
                                               VFLCB)
from mfpml.optimization.sf_cons_acqusitions import CEI
from mfpml.optimization.sf_uncons_acqusitions import EI, LCB, PI

RULE = ("a case trains surrogates and queries acquisition functions: with "
        "recording user optimizers (an exhaustive one whose answer is known, "
        "PSO and DE), with exact ties between the fidelities, and with the "
        "default search against a challenger search; non-trivial: each "
        "(acquisition, surrogate, optimizer, chosen fidelity)")
MIN = {"queries of user optimizers": 300, "default queries": 60,
       "fidelity decisions": 150, "exact ties": 40, "high fidelity": 40,
       "low fidelity": 40, "points compared": 10000}
SF = dict(LCB=LCB, EI=EI, PI=PI, CEI=CEI)
MF = dict(VFLCB=VFLCB, AEI=AugmentedEI, VFEI=VFEI, EPI=ExtendedPI)


def cases(tier, rng):
    m = 2 if tier == "quick" else 20
    out = []
    for a in SF:
        out += [dict(acq=a, kind="GP", opt="grid") for _ in range(20 * m)]
        out += [dict(acq=a, kind="GP", opt="ea") for _ in range(5 * m)]
        out += [dict(acq=a, kind="GP", opt="default") for _ in range(9 * m)]
    for a in MF:
        for k in ["HK"] if a == "VFEI" else ["HK", "SK", "CK"]:
            n = (3 if a == "VFEI" else 1) * m
            few = 1 if a == "EPI" else 3    # searches the predictor as well
            out += [dict(acq=a, kind=k, opt="grid")
                    for _ in range(5 * few * n)]
            out += [dict(acq=a, kind=k, opt="tie")
                    for _ in range(3 * few * n)]
            out += [dict(acq=a, kind=k, opt="ea") for _ in range(2 * n)]
            out += [dict(acq=a, kind=k, opt="default") for _ in range(
                14 * m if a == "EPI" else 7 * n)]
    return out


class Plug:
    """records the calls of run_optimizer and answers with `search`"""

    def __init__(self, search):
        self.search, self.calls = search, []

    def run_optimizer(self, func, num_dim, design_space, *a, args=(), **kw):
        seen = []

        def rec(X, *z):
            v = func(X, *z)
            seen.append((np.array(X, float).reshape(-1, num_dim),
                         np.array(v, float).ravel()))
            return v
        r, y, x = self.search(rec, num_dim, np.array(design_space, float),
                              args)
        self.calls.append(dict(
            func=func, args=args, d=num_dim, seen=seen, y=y,
            space=np.array(design_space, float), x=np.array(x, float).ravel()
            .copy()))
        return r, y, x


def grid(u):
    def search(f, d, sp, args):
        X = sp[:, 0] + u * (sp[:, 1] - sp[:, 0])
        v = np.ravel(f(X.copy(), *args))
        i = int(np.argmin(v))
        return dict(best_x=X[i].copy(), best_y=v[i:i + 1]), float(v[i]), X[i]
    return search


def ea(cls, pop, gen):
    def search(f, d, sp, args):
        return cls(num_pop=pop, num_gen=gen).run_optimizer(
            f, num_dim=d, design_space=sp, args=args)
    return search


class Setup:
    def __init__(self, rng, spec, d):
        self.name, self.mf = spec["acq"], spec["acq"] in MF
        self.c = c = Case(rng, spec["kind"], d=d)
        self.m = c.fit()
        self.cons = []
        if self.name == "CEI":
            for _ in range(int(rng.integers(1, 4))):
                q = Case(rng, "GP", d=d)
                q.sp, q.X = c.sp, [c.X[0].copy()]
                y = gp_data(rng, d, 4, "unit")[1](
                    (c.X[0] - c.sp[:, 0]) / (c.sp[:, 1] - c.sp[:, 0]))
                q.Y = [y - np.quantile(y, rng.uniform(.3, .9))]
                if q.prior:
                    q.prior = q.s * float(y.std())
                q.answers = q._answers(rng)
                self.cons.append(q.fit())
        if spec["opt"] == "tie":
            self.m.__class__ = WARP[spec["kind"]]
            self.m.same = True
            if self.name == "VFEI":
                self.m.beta = np.ones_like(np.asarray(self.m.beta, float))
            self.m._eval_corr = lambda X, Y, fidelity=0: np.full(
                (len(np.atleast_2d(X)), 1), .25)
        self.cr = float(rng.choice([1, 2, 4, 10]))
        if spec["opt"] == "tie":
            self.cr = 1.0
        self.fmin = float(c.Y[0].min())
        self.epi = None

    def values(self, acq, X, fid=None):
        m = self.m
        if self.name == "CEI":
            v = acq.eval(X, m, self.cons)
        elif not self.mf:
            v = acq.eval(X, m)
        elif self.name == "VFEI":
            v = acq.eval(X, self.fmin, m, fid)
        elif self.name == "EPI":
            v = acq.eval(X, m, self.epi, self.cr, fid)
        else:
            v = acq.eval(X, m, self.cr, fid)
        return np.ravel(np.asarray(v, float))

    def query(self, acq):
        if self.name == "CEI":
            return acq.query(obj_surrogate=self.m, cons_surrogate=self.cons)
        if not self.mf:
            return acq.query(surrogate=self.m)
        return acq.query(mf_surrogate=self.m, cost_ratio=self.cr,
                         fmin=self.fmin)


def challenge(f, sp, rng, extra, n=1500, k=5):
    """best value found by an independent search"""
    w = sp[:, 1] - sp[:, 0]
    X = np.vstack([uniform(rng, sp, n), extra, np.clip(
        extra[rng.integers(len(extra), size=200)] + .02 * w * rng.normal(
            size=(200, len(sp))), sp[:, 0], sp[:, 1])])
    v = f(X)
    best, at = float(v.min()), X[int(np.argmin(v))]
    span = float(np.ptp(v))
    for i in np.argsort(v)[:k]:
        r = minimize(lambda u: float(f((sp[:, 0] + u * w)[None])[0]) / (
            span or 1), (X[i] - sp[:, 0]) / w, bounds=[(0, 1)] * len(sp),
            method="L-BFGS-B", options=dict(maxiter=60))
        if np.isfinite(r.fun) and r.fun * (span or 1) < best:
            best, at = float(r.fun * (span or 1)), sp[:, 0] + np.clip(
                r.x, 0, 1) * w
    return best, at, span


def run(spec, mon):
    rng = R(spec)
    d = int(rng.integers(1, 4 if spec["opt"] != "default" else 3))
    s = Setup(rng, spec, d)
    m, c = s.m, s.c
    sp = np.asarray(c.sp, float)
    cls = (MF if s.mf else SF)[s.name]
    if spec["opt"] == "default":
        plug, acq = None, cls()
    else:
        u = qmc.Sobol(d, seed=int(rng.integers(2**31))).random(128)
        how = grid(u) if spec["opt"] != "ea" else ea(
            PSO if rng.random() < .5 else DE, 10, 8)
        plug = Plug(how)
        acq = cls(optimizer=plug)
    if s.name == "EPI":     # the best prediction, as a rival finds it
        s.epi = challenge(lambda X: np.ravel(m.predict(X)), sp, rng,
                          np.vstack(c.X))[0]
    before = public_state(m)
    out = s.query(acq)
    det = f"{spec} d={d} noise {c.mode} cost ratio {s.cr}"
    mon.check(public_state(m) == before, "a query changes no surrogate", det)
    if s.mf:
        if not mon.check(isinstance(out, tuple) and len(out) == 2,
                         "a query returns point and fidelity", det):
            return
        x, fid = np.asarray(out[0], float), out[1]
        mon.check(x.shape == (1, d), "the point is one row", f"{x.shape} "
                  f"{det}")
        mon.check(fid in (0, 1), "the fidelity is 0 or 1", f"{fid} {det}")
        fid = int(fid)
    else:
        x, fid = np.asarray(out, float), None
        mon.check(x.size == d, "the point has one entry per variable",
                  f"{x.shape} {det}")
    x = x.ravel()
    mon.check(((x >= sp[:, 0]) & (x <= sp[:, 1])).all(),
              "the point is inside the design space", f"{x} {sp.tolist()} "
              f"{det}")
    mon.state(spec["acq"], spec["kind"], spec["opt"], fid, d)
    if plug is None:
        default(mon, rng, s, acq, x, fid, sp, det)
        return
    mon.event("queries of user optimizers")
    fids = [0, 1] if s.mf else [None]
    if not mon.check(len(plug.calls) == len(fids), "the user's optimizer "
                     "searches once per fidelity", f"{len(plug.calls)} "
                     f"calls; {det}"):
        return
    Q = np.vstack([uniform(rng, sp, 20), np.vstack(c.X)[:4]])
    if s.name == "EPI" and not implied(mon, s, acq, plug, Q):
        mon.event("no improvement anywhere")
        return
    truth = [s.values(acq, Q, f) for f in fids]
    tol = 1e-7 * (max(float(np.ptp(t)) for t in truth) + max(float(np.abs(
        t).max()) for t in truth) * 1e-2) + 1e-300
    match = {}
    for k, call in enumerate(plug.calls):
        mon.same(call["space"], sp, "the search space is the design space",
                 det)
        mon.check(call["d"] == d, "the search has one variable per "
                  "dimension", det)
        v = np.ravel(np.asarray(call["func"](Q.copy(), *call["args"]),
                                float))
        hit = [f for f, t in zip(fids, truth)
               if v.shape == t.shape and np.abs(v - t).max() <= tol]
        mon.event("points compared", len(Q))
        if mon.check(hit, "the search minimizes the acquisition", lambda:
                     f"call {k}: {v[:3]} {[t[:3] for t in truth]} {det}"):
            for f in hit:
                match.setdefault(f, []).append(k)
    if not mon.check(sorted(match, key=str) == fids, "every fidelity is "
                     "searched", f"{match} {det}"):
        return
    if not s.mf:
        mon.same(x, plug.calls[0]["x"], "the optimizer's answer is returned",
                 det)
        return
    # ---- choice of the fidelity -------------------------------------------
    ambiguous = match[0] == match[1]
    a, b = (0, 1) if ambiguous else (match[0][0], match[1][0])
    y = [plug.calls[a]["y"], plug.calls[b]["y"]]
    want = 0 if y[0] <= y[1] else 1
    if spec["opt"] == "tie" and y[0] == y[1]:
        mon.event("exact ties")
    if ambiguous:
        want = 0
        if spec["opt"] != "tie" or y[0] != y[1]:
            return
    mon.check(fid == want, "the fidelity with the better value, high on "
              "ties", f"{fid}, values {y}; {det}")
    mon.same(x, plug.calls[(a, b)[want]]["x"], "the optimizer's answer is "
             "returned", det)
    mon.event("fidelity decisions")
    mon.event("low fidelity" if fid else "high fidelity")


def implied(mon, s, acq, plug, Q):
    """the best prediction that the search used must be a good one; take it
    as known from here on (the improvement grows with it)"""
    rival = s.epi
    sd = float(s.c.Y[0].std())
    call = plug.calls[0]
    v = float(np.sum(call["func"](Q.copy(), *call["args"])))

    def f(t, fid):
        s.epi = t
        return float(np.sum(s.values(acq, Q, fid))) - v
    lo, hi = rival - 2 * sd, rival + 4 * sd
    for fid in (0, 1):
        if f(lo, fid) * f(hi, fid) < 0 and abs(v) > 1e-12:
            t = brentq(f, lo, hi, args=(fid,), xtol=1e-13 * sd, rtol=1e-14)
            s.epi = t
            if all(any(np.allclose(np.ravel(k["func"](
                    Q.copy(), *k["args"])), s.values(acq, Q, g), rtol=1e-5,
                    atol=1e-9) for g in (0, 1)) for k in plug.calls):
                mon.event("best predictions judged")
                mon.event("best prediction above a rival's by 5%",
                          int(t > rival + .05 * sd))
                return True
    s.epi = rival
    return abs(v) > 1e-12


def default(mon, rng, s, acq, x, fid, sp, det):
    """the default search against a challenger"""
    c = s.c
    f = lambda k: (lambda X: s.values(acq, X, k))           # noqa: E731
    best, at, span = challenge(f(fid), sp, rng, np.vstack(c.X))
    got = float(f(fid)(x[None])[0])
    mon.event("default queries")
    gap = (got - best) / span if span > 1e-12 * abs(best) else 0.0
    mon.check(np.isfinite(got), "the acquisition is finite at the answer",
              det)
    mon.event("default gap > 2%", int(gap > .02))
    mon.event("default gap > 30%", int(gap > .3))
    mon.event(f"default queries: {s.name} fidelity {fid}")
    mon.event(f"default gap > 30%: {s.name} fidelity {fid}", int(gap > .3))
    mon.sample = dict(acq=s.name, kind=c.kind, gap=gap, d=c.d)
    if fid is None:
        return
    other, _, _ = challenge(f(1 - fid), sp, rng, np.vstack(c.X))
    mon.event("fidelity decisions")
    mon.event("low fidelity" if fid else "high fidelity")
    wrong = other < best - .05 * abs(best)
    mon.event("worse fidelity chosen", int(wrong))
    mon.event(f"default decisions: {s.name}")
    mon.event(f"worse fidelity chosen: {s.name}", int(wrong))
    mon.event(f"wrong fidelity or gap > 30%: {s.name}",
              int(wrong or gap > .3))


def finish(n):
    q = n["best predictions judged"]
    if n["best prediction above a rival's by 5%"] > .2 * q + 2:
        yield ("extended probability of improvement does not start from the "
               "best prediction")
    q = n["default queries"]
    if q >= 40:
        for k, lim in (("default gap > 2%", .08), ("default gap > 30%", .05),
                       ("worse fidelity chosen", .03)):
            if n[k] > lim * q + 2:
                yield (f"the default search does not find the best of the "
                       f"acquisition: {k} in {n[k]} of {q} queries")
    for k, q in list(n.items()):
        for a, b, lim, more in (
                ("default queries: ", "default gap > 30%: ", .25, 2),
                ("default decisions: ", "worse fidelity chosen: ", .08, 1),
                ("default decisions: ", "wrong fidelity or gap > 30%: ", .1,
                 2)):
            b = k.replace(a, b)
            if k.startswith(a) and n[b] > lim * q + more:
                yield (f"the default search does not find the best of the "
                       f"acquisition: {b} in {n[b]} of {q} queries")
