"""P34: Bayesian optimization closes in on the optimum"""
import numpy as np

from harness import problems as pb
from harness.bo import (BayesConsOpt, BayesUnConsOpt, mfUnConsBayesOpt)
from harness.gen import R, uniform
from mfpml.optimization.evolutionary_algorithms import DE
from mfpml.optimization.mf_acqusitions import (AugmentedEI, ExtendedPI, VFEI,
                                               VFLCB)
from mfpml.optimization.sf_cons_acqusitions import CEI
from mfpml.optimization.sf_uncons_acqusitions import EI, LCB, PI

RULE = ("a case runs one complete optimization of a benchmark problem from a "
        "random seed and measures which share of the (feasible) domain is "
        "better than the reported best; the verdict is over all runs of a "
        "kind; non-trivial: each (problem, acquisition, surrogate, search) "
        "run to the end")
MIN = {"runs": 40, "iterations": 400, "continued runs": 6}
ACQ = dict(LCB=LCB, EI=EI, PI=PI, VFEI=VFEI, VFLCB=VFLCB,
           AugmentedEI=AugmentedEI, ExtendedPI=ExtendedPI)
SFP = {"Forrester": (4, 10), "Branin": (10, 12)}
MFP = {"Forrester_1a": (3, 8, 12), "mf_Booth": (6, 18, 14)}
MFC = [("VFEI", "HierarchicalKriging"), ("VFLCB", "HierarchicalKriging"),
       ("VFLCB", "CoKriging"), ("VFLCB", "ScaledKriging"),
       ("AugmentedEI", "CoKriging"), ("ExtendedPI", "CoKriging")]


def cases(tier, rng):
    m = 1 if tier == "quick" else 8
    out = [dict(kind="cons", name="Branin_1") for _ in range(8 * m)]
    out += [dict(kind="SF", name=n, acq=a) for n, k in (("Branin", 3),
                                                        ("Forrester", 4))
            for a in ("LCB", "EI", "PI") for _ in range(k * m)]
    out += [dict(kind="MF", name=n, acq=a, sur=s)
            for n, k in (("Forrester_1a", 2), ("mf_Booth", 1))
            for a, s in MFC for _ in range(k * m)]
    return out


def run(spec, mon):
    rng = R(spec)
    name, kind = spec["name"], spec["kind"]
    p = pb.cls(name)()
    dom = np.array(p.input_domain, float)
    seed = int(rng.integers(1e6))
    own = name == "mf_Booth" or rng.random() < .6
    opt = DE(num_pop=30, num_gen=60) if own else None
    Q = uniform(rng, dom, 20000)
    kw = {}
    if kind == "SF":
        n0, k = SFP[name]
        b = BayesUnConsOpt(problem=p, acquisition=ACQ[spec["acq"]](
            optimizer=opt), num_init=n0, seed=seed, verbose=False)
        y = p.f(Q).ravel()
        start = p.f(np.array(b.init_sample))
    elif kind == "cons":
        k = 9
        b = BayesConsOpt(problem=p, acquisition=CEI(optimizer=opt),
                         num_init=8, seed=seed, verbose=False)
        y = p.f(Q).ravel()
        y = y[np.asarray(p.f_cons(Q)).max(1) <= 0]
        start = p.f(np.array(b.init_sample)).ravel()[np.asarray(p.f_cons(
            np.array(b.init_sample))).max(1) <= 0]
    else:
        n0, n1, k = MFP[name]
        b = mfUnConsBayesOpt(problem=p, acquisition=ACQ[spec["acq"]](
            optimizer=opt), num_init=[n0, n1], surrogate_name=spec["sur"],
            seed=seed, verbose=False)
        y = p.hf(Q).ravel()
        kw = dict(cost_ratio=5.)
        start = p.hf(np.array(b.init_sample[0]))
    start = float(np.min(start, initial=np.inf))
    # the budget at once or in two runs, the second goes on from the first
    parts = [k] if rng.random() < .6 else [k // 2, k - k // 2]
    for part in parts:
        b.run_optimizer(max_iter=part, stopping_error=0.0, **kw)
        now = float(np.ravel(b.best)[0])
        mon.check(now <= start, "the best is no worse than the start",
                  f"{now} {start} {spec}")
        start = now
    mon.event("continued runs", len(parts) - 1)
    best = float(np.ravel(b.best)[0])
    mon.check(np.isinf(best) or best >= float(np.ravel(p.optimum)[0]) - 1e-3,
              "the best is no better than the optimum", f"{best} {spec}")
    left = float((y < best).mean())
    mon.event("runs")
    mon.event("iterations", k)
    mon.event(kind + " runs")
    mon.event(kind + " runs within the best 2 %", int(left < .02))
    mon.event("runs within the best 0.5 %", int(left < .005))
    mon.state(name, spec.get("acq"), spec.get("sur"), own)
    mon.sample = dict(spec=spec, best=best, better_left=left)


# least shares, which a library that works misses in less than one of 10^5
# checks; a random search of the same budget gets about .3 and .1
SHARES = [("SF runs within the best 2 %", "SF runs", .6),       # .95
          ("cons runs within the best 2 %", "cons runs", .5),   # 1.0
          ("MF runs within the best 2 %", "MF runs", .7),       # 1.0
          ("runs within the best 0.5 %", "runs", .65)]          # .95


def finish(c):
    for a, b, share in SHARES:
        if c[b] and c[a] < share * c[b]:
            yield f"{a}: {c[a]} of {c[b]}, expected a share of {share}"
