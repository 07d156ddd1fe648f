"""P09: problem metadata is consistent and belongs to the instance"""
import numpy as np

from harness import problems as pb
from harness.gen import R

RULE = ("a case creates problems in a random order (several dimensions and "
        "parameters of the parametric ones, several costs), evaluates some, "
        "and re-reads the metadata of all of them after every step; "
        "non-trivial: each (problem, later problem) pair judged")
MIN = {"metadata re-read": 2000, "dimension refusals": 300,
       "cost ratios": 100, "named bounds": 300}


def cases(tier, rng):
    return [dict(kind="history") for _ in
            range(2000 if tier == "quick" else 6000)]


def meta(p):
    return dict(num_dim=p.num_dim, dim=p._get_dimension,
                domain=None if p.input_domain is None else
                np.array(p.input_domain, float).tolist(),
                domain2=np.array(p._input_domain, float).tolist(),
                cons=p.num_cons, obj=getattr(p, "num_obj", 1),
                opt=np.asarray(p.optimum, float).ravel().tolist()
                if p.optimum is not None else None,
                opt2=np.asarray(p._optimum, float).ravel().tolist()
                if p._optimum is not None else None,
                sch=repr(p.optimum_scheme), sch2=repr(p._optimum_variable),
                cr=getattr(p, "cr", None), low=repr(p.low_fidelity),
                low2=repr(p._get_low_fidelity),
                named=repr(getattr(p, "design_space", None)),
                par=p.get_param() if hasattr(p, "get_param") else None)


def run(spec, mon):
    rng = R(spec)
    live = []
    probes = {}
    for step in range(22):
        name = str(rng.choice(pb.ALL + pb.PAR * 4))
        if name in pb.MF_COST and rng.random() < .8:
            a = float(rng.uniform(.5, 500))
            cost = [a, a / float(rng.uniform(1, 60))]
            p, d, par = pb.cls(name)(cost=list(cost)), pb.DIM[name], {}
            mon.check(p.cr == round(cost[0] / cost[1]),
                      "cost ratio is the rounded ratio of the costs",
                      f"{name} {cost} {p.cr}")
            mon.event("cost ratios")
        else:
            p, d, par = pb.make(name, rng)
        m = meta(p)
        det = f"{name} d={d} {par}"
        dom = pb.domain(name, d)
        mon.check(m["num_dim"] == d and m["dim"] == d, "dimension",
                  f"{m['num_dim']} {det}")
        mon.check(m["domain"] == m["domain2"] and np.allclose(
            m["domain"], dom, rtol=1e-12) and np.shape(m["domain"]) ==
            (d, 2), "input domain", f"{m['domain']} {det}")
        D = np.array(m["domain"])
        mon.check((D[:, 0] < D[:, 1]).all(), "bounds increase", det)
        mon.check(m["obj"] == 1, "one objective", f"{m['obj']} {det}")
        named = getattr(p, "design_space", None)
        if named is not None:       # the same bounds by name of the variable
            mon.check(np.allclose(list(named.values()), dom, rtol=1e-12)
                      if len(named) == d else False,
                      "named bounds are those of the domain",
                      f"{named} {det}")
            mon.event("named bounds")
        nc = 1 if name in pb.CONS else 0
        mon.check(m["cons"] == nc, "constraint count", f"{m['cons']} {det}")
        mon.check(m["opt"] == m["opt2"] and m["sch"] == m["sch2"],
                  "both ways of reading the optimum agree", det)
        X = pb.points(rng, dom, 2)
        if nc:
            mon.check(np.asarray(p.f_cons(X)).shape == (len(X), nc),
                      "one constraint value per constraint", det)
        if p.optimum is not None:
            f = p.hf if name in pb.MF else p.f
            S = np.atleast_2d(np.array(p.optimum_scheme, float))
            mon.check(S.shape[1] == d and (S >= D[:, 0] - 1e-9).all()
                      and (S <= D[:, 1] + 1e-9).all(),
                      "minimizer belongs to the problem", det)
            vals = np.asarray(f(S)).ravel()
            mon.check(np.abs(vals - m["opt"][0]).max() <= 0.06,
                      "optimum belongs to the problem",
                      f"{vals} {m['opt']} {det}")
        if par and name == "Ackley":
            mon.check(m["par"] == par, "parameters are the given ones", det)
        Xp = pb.points(rng, dom, 2)
        vals = [np.array(getattr(p, ff)(Xp)) for ff in pb.fidelities(name)]
        live.append((name, p, m, det, Xp, vals))
        if rng.random() < .5:
            k = int(rng.integers(len(live)))
            for ff in pb.fidelities(live[k][0]):
                getattr(live[k][1], ff)(live[k][4])
        for nm, q, mm, dd, Xq, vq in live:
            now = meta(q)
            mon.check(now == mm, "metadata stays what it was", lambda:
                      f"{dd} after creating {det}: " + str(
                          {k: (mm[k], now[k]) for k in mm
                           if mm[k] != now[k]}))
            mon.event("metadata re-read")
            mon.state(nm, name)
    for nm, q, mm, dd, Xq, vq in live:
        for ff, v in zip(pb.fidelities(nm), vq):
            mon.same(getattr(q, ff)(Xq), v, "values stay what they were", dd)
    for name in pb.SF + pb.CONS + pb.MF:
        d = pb.DIM[name]
        bad = int(rng.choice([k for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 20)
                              if k != d]))
        for b in {bad, d + 1}:
            mon.raises(Exception, lambda: pb.cls(name)(num_dim=b),
                       f"{name} refuses another dimension")
            mon.event("dimension refusals")
        mon.check(pb.cls(name)(num_dim=d).num_dim == d,
                  "the own dimension is accepted", name)
