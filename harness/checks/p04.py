"""P04: multi-fidelity designs: counts, bounds, nesting"""
import numpy as np

from harness.gen import R, space, unit
from harness.checks.p03 import stratified
from mfpml.design_of_experiment.mf_samplers import (MFLatinHyperCube,
                                                    MFSobolSequence)

RULE = ("a case builds one multi-fidelity sampler (LHS/Sobol, nested or not, "
        "1-5 fidelities, one space or one per fidelity) and draws several "
        "designs between other draws; non-trivial: each (sampler, nested, "
        "fidelities, counts pattern, dimension) judged")
MIN = {"designs judged": 300, "nested designs": 100,
       "designs with own bounds per fidelity": 30,
       "decreasing counts refused": 40, "repeated designs": 100,
       "designs with bounds in both forms": 300}


def cases(tier, rng):
    return [dict(kind="draws") for _ in
            range(5000 if tier == "quick" else 20000)]


def counts(rng, F):
    pat = str(rng.choice(["equal", "plus", "random", "ones"]))
    if pat == "equal":
        return [int(rng.integers(1, 40))] * F, pat
    if pat == "plus":
        a = int(rng.integers(1, 20))
        return [a + i for i in range(F)], pat
    if pat == "ones":
        return [1] * (F - 1) + [int(rng.integers(1, 12))], pat
    if rng.random() < .03:
        return sorted(int(k) for k in rng.integers(1, 2500, F)), pat
    return sorted(int(k) for k in rng.integers(1, 120, F)), pat


def run(spec, mon):
    rng = R(spec)
    d = int(rng.choice([1, 2, 3, 5, 10, 25], p=[.2, .2, .2, .2, .17, .03]))
    F = int(rng.choice([1, 2, 2, 2, 3, 4, 5, 9], p=[
        .14, .14, .14, .14, .14, .14, .13, .03]))
    nested = bool(rng.random() < .5)
    name = str(rng.choice(["lhs", "sobol"]))
    own = (not nested) and rng.random() < .5
    if own:
        sps = [space(rng, d).astype(float) for _ in range(F)]
        arg = [s.copy() for s in sps]
        kw = {}
    else:
        sp = space(rng, d)
        sps = [sp.astype(float)] * F
        if rng.random() < .3:
            arg, kw = [sp.copy() for _ in range(F)], {}
        else:
            arg, kw = sp.copy(), dict(num_fidelity=F)
    before = [np.array(a, copy=True) for a in arg]
    if name == "sobol" and rng.random() < .5:
        kw["num_skip"] = int(rng.choice([0, 1, 3, 9]))
    cls = MFLatinHyperCube if name == "lhs" else MFSobolSequence
    s = cls(design_space=arg, nested=nested, **kw)
    other = None        # the same bounds, passed in the other form
    if not own:
        k2 = {k: v for k, v in kw.items() if k != "num_fidelity"}
        other = cls(design_space=[sp.copy() for _ in range(F)], nested=nested,
                    **k2) if "num_fidelity" in kw else cls(
            design_space=sp.copy(), nested=nested, num_fidelity=F, **k2)
    kept = []
    memo = {}
    plan = []
    for _ in range(4):
        c, pat = counts(rng, F)
        seed = int(rng.integers(2**31)) if rng.random() < .8 else 0
        plan.append((c, pat, seed))
    plan = plan + [plan[i] for i in rng.integers(4, size=3)]
    for c, pat, seed in plan:
        arg_c = list(c) if rng.random() < .7 else tuple(c)
        a = rng.random()
        if a < .3:
            np.random.seed(int(rng.integers(2**32)))
        elif a < .5:
            np.random.random(7)
        elif a < .6:
            s.get_samples(num_samples=list(c), seed=None)
        use = s if rng.random() < .7 else cls(design_space=arg,
                                              nested=nested, **kw)
        D = use.get_samples(num_samples=arg_c, seed=seed)
        det = f"{name} nested={nested} counts={c} d={d} seed={seed}"
        mon.check(list(arg_c) == list(c), "caller's counts unchanged",
                  f"{arg_c} {det}")
        if not mon.check(isinstance(D, list) and len(D) == F,
                         "one array per fidelity", det):
            return
        mon.check(use.data is D or (len(use.data) == F and all(
            np.array_equal(p, q) for p, q in zip(use.data, D))),
            "design is kept on the sampler", det)
        for i in range(F):
            Si = np.asarray(D[i])
            if not mon.check(Si.shape == (c[i], d),
                             "requested number of points per fidelity",
                             f"fidelity {i}: {Si.shape} {det}"):
                continue
            ulp = 4 * np.finfo(float).eps * np.abs(sps[i]).max(1)
            mon.check(np.isfinite(Si).all()
                      and (Si >= sps[i][:, 0] - ulp).all()
                      and (Si <= sps[i][:, 1] + ulp).all(),
                      "points inside the bounds of their fidelity",
                      f"fidelity {i} {det}")
            mon.check(len(np.unique(Si, axis=0)) == c[i],
                      "distinct points per fidelity", det)
            if name == "lhs" and (not nested or i == F - 1):
                stratified(mon, unit(Si, sps[i]), c[i],
                           "Latin hypercube is stratified at the fidelity",
                           f"fidelity {i} {det}")
            if nested and i + 1 < F:
                low = {r.tobytes() for r in np.ascontiguousarray(D[i + 1])}
                mon.check(all(r.tobytes() in low for r in
                              np.ascontiguousarray(Si)),
                          "nested: subset of the next lower fidelity",
                          f"fidelity {i} {det}")
        if other is not None and rng.random() < .4:
            E = other.get_samples(num_samples=list(c), seed=seed)
            mon.check(len(E) == F and all(np.array_equal(p, q)
                                          for p, q in zip(D, E)),
                      "bounds given once or per fidelity: same design", det)
            mon.event("designs with bounds in both forms")
        key = (tuple(c), seed)
        if key in memo:
            mon.check(all(np.array_equal(p, q)
                          for p, q in zip(memo[key], D)),
                      "design depends on arguments and seed only", det)
            mon.event("repeated designs")
        memo[key] = [np.array(p, copy=True) for p in D]
        kept.append((D, memo[key]))
        mon.event("designs judged")
        if nested:
            mon.event("nested designs")
        if own:
            mon.event("designs with own bounds per fidelity")
        mon.state(name, nested, F, pat, d, own)
    for D, c in kept:
        mon.check(len(D) == F and all(np.array_equal(p, q)
                                      for p, q in zip(c, D)),
                  "earlier designs stay as returned")
    for p, q in zip(arg, before):
        mon.same(p, q, "caller's bounds unchanged")
    if F > 1:
        for bad in ([9] + [8] * (F - 1), list(range(F + 3, 3, -1)),
                    [5] * (F - 1) + [4]):
            mon.raises(Exception, lambda: cls(
                design_space=arg, nested=nested, **kw).get_samples(
                    num_samples=list(bad), seed=1),
                "decreasing counts are refused")
            mon.event("decreasing counts refused")
