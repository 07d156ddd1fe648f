"""P32: Bayesian optimization is reproducible from its seed"""
import numpy as np

from harness.bo import (BayesConsOpt, BayesUnConsOpt, Log, MFProblem,
                        SFProblem, SURROGATES, mfUnConsBayesOpt)
from harness.gen import R, Smooth, lhs, space
from mfpml.optimization.evolutionary_algorithms import DE, PSO
from mfpml.optimization.mf_acqusitions import (AugmentedEI, ExtendedPI, VFEI,
                                               VFLCB)
from mfpml.optimization.sf_cons_acqusitions import CEI
from mfpml.optimization.sf_uncons_acqusitions import EI, LCB, PI

RULE = ("a case runs the same optimization twice: the second time after "
        "another history of the process (other optimizations, draws, seeds), "
        "with other printing, with new or the same problem and acquisition "
        "objects; the recorded logs must be identical; non-trivial: each "
        "(optimizer, acquisition, search, surrogate, perturbation)")
MIN = {"pairs compared": 45, "evaluations compared": 350,
       "other seeds": 45, "user optimizers": 10, "reused objects": 10,
       "runs with another verbosity": 10, "seeds at the edge": 10}


def cases(tier, rng):
    m = 2 if tier == "quick" else 25
    return ([dict(kind="SF") for _ in range(30 * m)]
            + [dict(kind="cons") for _ in range(14 * m)]
            + [dict(kind="MF", sur=s) for s in SURROGATES
               for _ in range(7 * m)])


def run(spec, mon):
    rng = R(spec)
    d = 1 if spec["kind"] == "MF" else int(rng.integers(1, 3))
    sp = space(rng, d)
    f, g = Smooth(rng, sp), Smooth(rng, sp)
    seed = int(rng.integers(10000))
    if rng.random() < .25:
        seed = int(rng.choice([0, 0, 0, 1, 2**31]))
        mon.event("seeds at the edge")
    n0 = int(rng.integers(3, 7))
    k = int(rng.integers(1, 4))
    if spec["kind"] == "SF":
        A = [LCB, EI, PI][int(rng.integers(3))]
    elif spec["kind"] == "cons":
        A = CEI
        q = float(np.quantile(g(lhs(rng, sp, 100)), .6))
    else:
        A = [VFLCB, AugmentedEI, ExtendedPI] + (
            [VFEI] if spec["sur"] == "HierarchicalKriging" else [])
        A = A[int(rng.integers(len(A)))]
        k = min(k, 2)
    search = [None, None, PSO, DE][int(rng.integers(4))]
    if search:
        mon.event("user optimizers")
    cr = float(rng.choice([1, 4]))

    def setup():
        log = Log()
        acq = A(optimizer=search(num_pop=12, num_gen=12) if search else None)
        if spec["kind"] == "SF":
            P = SFProblem(log, sp.copy(), f)
        elif spec["kind"] == "cons":
            P = SFProblem(log, sp.copy(), f, None, [lambda X: g(X) - q])
        else:
            P = MFProblem(log, sp.copy(), lambda X: 2 * f(X) + .3 * f.s * g(
                X) / g.s, f)
        return log, P, acq

    def go(log, P, acq, s=seed, verbose=False, iters=k):
        del log[:]
        if spec["kind"] == "SF":
            b = BayesUnConsOpt(problem=P, acquisition=acq, num_init=n0,
                               seed=s, verbose=verbose)
        elif spec["kind"] == "cons":
            b = BayesConsOpt(problem=P, acquisition=acq, num_init=n0,
                             seed=s, verbose=verbose)
        else:
            b = mfUnConsBayesOpt(problem=P, acquisition=acq,
                                 num_init=[n0, n0 + 3],
                                 surrogate_name=spec["sur"], seed=s,
                                 verbose=verbose)
        if iters:
            kw = dict(cost_ratio=cr) if spec["kind"] == "MF" else {}
            b.run_optimizer(max_iter=iters, stopping_error=0.0, **kw)
        out = {z: log.rows(z) for z in ("f", "cons", "hf", "lf")}
        hist = (np.array(b.history_best, float).ravel(), [
            None if x is None else np.array(x, float).ravel()
            for x in b.history_best_x])
        return out, hist, list(getattr(b, "fidelity_query_order", []))

    det = (f"{spec['kind']} {spec.get('sur', '')} {A.__name__} search "
           f"{search.__name__ if search else 'default'} d={d} init {n0} "
           f"iterations {k}")
    objs = setup()
    np.random.seed(int(rng.integers(2**31)))
    one = go(*objs)
    # ---- another history of the process -----------------------------------
    how = set()
    if rng.random() < .5:
        np.random.seed(int(rng.integers(2**31)))
        np.random.random(int(rng.integers(1, 50)))
        how.add("global draws")
    if rng.random() < .4:
        go(*setup(), s=seed + 1, iters=int(rng.integers(0, 2)))
        how.add("another optimization")
    if rng.random() < .5:
        objs = setup()
    else:
        how.add("same objects")
        mon.event("reused objects")
    verbose = bool(rng.random() < .5)
    if verbose:
        mon.event("runs with another verbosity")
        how.add("verbose")
    two = go(*objs, verbose=verbose)
    det += f" after {sorted(how)}"
    for z in one[0]:
        a, b = one[0][z], two[0][z]
        if a[0] is None:
            mon.check(b[0] is None, "the same evaluations", det)
            continue
        mon.event("evaluations compared", len(a[0]))
        if mon.check(b[0] is not None, "the same evaluations", det):
            mon.same(a[0], b[0], "the same evaluations", f"{z}; {det}")
            mon.same(a[1], b[1], "the same responses", f"{z}; {det}")
    mon.same(one[1][0], two[1][0], "the same history of bests", det)
    mon.check(len(one[1][1]) == len(two[1][1]) and all(
        (x is None and y is None) or (x is not None and y is not None
                                      and np.array_equal(x, y))
        for x, y in zip(one[1][1], two[1][1])),
        "the same history of best points", det)
    mon.same(one[2], two[2], "the same fidelities", det)
    mon.event("pairs compared")
    mon.state(spec["kind"], spec.get("sur"), A.__name__, bool(search),
              sorted(how))
    # ---- other seeds -------------------------------------------------------
    three = go(*setup(), s=seed + 1 + int(rng.integers(1000)), iters=0)
    for z, n in (("f", n0), ("hf", n0), ("lf", n0 + 3)):
        a, b = one[0][z][0], three[0][z][0]
        if a is not None and b is not None:
            mon.check(not np.array_equal(a[:n], b[:n]), "other seeds give "
                      "other initial designs", det)
            mon.event("other seeds")
