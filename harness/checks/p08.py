"""P08: declared optima are attained, feasible and never beaten"""
import numpy as np
from scipy import optimize

from harness import problems as pb
from harness.gen import R

RULE = ("a case takes one problem with a declared optimum and searches for "
        "better feasible points (random batches, boundary points, local "
        "searches from the best of them, differential evolution); "
        "non-trivial: each (problem, search) that returned a feasible point")
MIN = {"declared minimizers judged": 60, "points searched": 300000,
       "local searches": 200}
# (allowance of the declared value, allowance of the constraint at the
# printed minimizer): half a unit of the last printed digit of the optimum
# plus the variation of the function over the rounding of the minimizer
TOL = dict(Forrester=(1e-6, 0), Forrester_1a=(1e-6, 0),
           Forrester_1b=(1e-6, 0), Forrester_1c=(1e-6, 0),
           Branin=(1e-6, 0), GoldPrice=(1e-9, 0), Sixhump=(6e-5, 0),
           mf_Sixhump=(6e-5, 0), Sasena=(6e-5, 0), Hartman3=(1e-8, 0),
           mf_Hartman3=(1e-8, 0), Hartman6=(1e-8, 0), mf_Hartman6=(1e-8, 0),
           Thevenot=(1e-9, 0), Ackley=(1e-9, 0), AckleyN2=(1e-9, 0),
           mf_Bohachevsky=(1e-9, 0), mf_Booth=(1e-9, 0),
           Branin_1=(6e-4, 6e-6), Branin_2=(0.06, 0.013))
BEAT = dict(Branin_1=1e-4, Branin_2=1e-3)


def cases(tier, rng):
    m = 16 if tier == "quick" else 60
    return [dict(kind=n, name=n) for n in pb.ALL
            for _ in range(m * (4 if n in pb.PAR else 1))]


def run(spec, mon):
    rng = R(spec)
    name = spec["name"]
    p, d, par = pb.make(name, rng)
    opt, sch = p.optimum, p.optimum_scheme
    mon.check((opt is None) == (sch is None),
              "optimum and minimizer are declared together", name)
    if opt is None:
        mon.event("problems without a declared optimum")
        return
    dom = pb.domain(name, d)
    f = p.hf if name in pb.MF else p.f
    cons = p.f_cons if name in pb.CONS else None
    opt = float(np.asarray(opt).ravel()[0])
    vt, ct = TOL.get(name, (1e-6, 0))
    S = np.atleast_2d(np.array(sch, float))
    det = f"{name} d={d} {par}"
    if not mon.check(S.ndim == 2 and S.shape[1] == d,
                     "a minimizer has one entry per variable", det):
        return
    for s in S:
        mon.check((s >= dom[:, 0] - 1e-9).all()
                  and (s <= dom[:, 1] + 1e-9).all(),
                  "the minimizer lies in the domain", f"{s} {det}")
        v = float(np.asarray(f(s[None])).ravel()[0])
        mon.check(abs(v - opt) <= vt, "the minimizer attains the optimum",
                  f"f({s.tolist()}) = {v!r}, declared {opt!r} {det}")
        if cons is not None:
            g = float(np.max(cons(s[None])))
            mon.check(g <= ct, "the minimizer is feasible",
                      f"constraint {g} at {s.tolist()} {det}")
        mon.event("declared minimizers judged")
    beat = BEAT.get(name, vt)

    def judge(x, how):
        x = np.clip(np.asarray(x, float), dom[:, 0], dom[:, 1])
        if cons is not None and np.max(cons(x[None])) > 0:
            return
        v = float(np.asarray(f(x[None])).ravel()[0])
        known = None
        if name == "Thevenot" and abs(opt + 1) < 1e-9 and d >= 2:
            # the published function itself falls below -1 where a variable
            # is zero and another is not (both products are 1 there)
            ref = float(pb.formula(name, "f", x[None], par)[0])
            if abs(ref - v) < 1e-9:
                known = "thevenot-optimum"
        mon.check(v >= opt - beat, "no feasible point is better",
                  f"f({x.tolist()}) = {v!r} < {opt!r} {det} ({how})", known)
        mon.state(name, d, how)
    # global sampling
    best = []
    for _ in range(6):
        X = pb.points(rng, dom, 3000)
        if name == "Thevenot":
            X[::3] = np.round(X[::3] / np.pi) * np.pi
            X = np.clip(X, dom[:, 0], dom[:, 1])
        Y = np.asarray(f(X)).ravel()
        if cons is not None:
            Y = np.where(np.max(cons(X), axis=1) <= 0, Y, np.inf)
        mon.event("points searched", len(X))
        k = np.argsort(Y)[:3]
        best += [(Y[i], X[i]) for i in k if np.isfinite(Y[i])]
        judge(X[k[0]], "sampling")
    best.sort(key=lambda t: t[0])
    starts = [x for _, x in best[:6]] + [
        np.clip(s + 1e-2 * rng.normal(size=d) * (dom[:, 1] - dom[:, 0]),
                dom[:, 0], dom[:, 1]) for s in S]
    for x0 in starts:
        fun = lambda x: float(np.asarray(f(np.clip(        # noqa: E731
            x, dom[:, 0], dom[:, 1])[None])).ravel()[0])
        if cons is None:
            r = optimize.minimize(fun, x0, method="L-BFGS-B", bounds=dom)
        else:
            r = optimize.minimize(
                fun, x0, method="SLSQP", bounds=dom, constraints=[
                    dict(type="ineq", fun=lambda x: -float(np.max(cons(
                        x[None]))) - 1e-9)])
        mon.event("local searches")
        judge(r.x, "local search")
