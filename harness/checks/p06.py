"""P06: benchmark problems are pure, row-wise and finite on their domain"""
import numpy as np

from harness import problems as pb
from harness.gen import R, variants

RULE = ("a case evaluates one problem at one fidelity on random, boundary, "
        "corner and integer points, then again row by row, permuted, "
        "repeated, in other layouts and dtypes and between evaluations of "
        "other problems; non-trivial: each (problem, fidelity, relation)")
MIN = {"evaluations judged": 300, "integer batches": 40,
       "two-fidelity calls": 30, "reused arrays": 300, "large batches": 60}


def cases(tier, rng):
    m = 150 if tier == "quick" else 600
    return [dict(kind=n, name=n) for n in pb.ALL
            for _ in range(m * (3 if n in pb.PAR else 1))]


def run(spec, mon):
    rng = R(spec)
    name = spec["name"]
    p, d, par = pb.make(name, rng, big=True)
    dom = pb.domain(name, d)
    other = str(rng.choice(pb.ALL))
    q, dq, _ = pb.make(other, rng)
    for fid in pb.fidelities(name):
        f = getattr(p, fid)
        X = pb.points(rng, dom, int(rng.choice([3, 10, 60])))
        if rng.random() < .03:
            X = pb.points(rng, dom, int(2**rng.uniform(7, 12)))
            mon.event("large batches")
        n = len(X)
        keep = X.copy()
        det = f"{name}.{fid} d={d} {par}"
        Y = np.asarray(f(X))
        mon.event("evaluations judged")
        if not mon.check(Y.shape == (n, 1), "one row per point, one column",
                         f"{Y.shape} {det}"):
            continue
        mon.check(np.isfinite(Y).all(), "finite on the whole domain", lambda:
                  f"{det} at {X[~np.isfinite(Y).ravel()][:2].tolist()}")
        mon.same(X, keep, "input is not modified", det)
        tol = 100 * pb.tol(name, Y)
        Y = Y.copy()

        def same(Z, what):
            mon.close(Z, Y, tol, what, det)
            mon.state(name, fid, what)
        rows = range(n) if n < 99 else rng.integers(n, size=40)
        mon.close(np.vstack([f(X[i:i + 1]) for i in rows]), Y[rows],
                  tol[rows], "row by row gives the same values", det)
        perm = rng.permutation(n)
        Z = np.empty_like(Y)
        Z[perm] = f(X[perm])
        same(Z, "row order does not matter")
        same(f(np.vstack([X, X[::-1]]))[:n], "other rows do not matter")
        sub = rng.integers(n, size=5)
        mon.close(f(X[sub]), Y[sub], tol[sub], "repeated rows", det)
        for lab, V in variants(X, rng):
            same(f(V), f"memory layout: {lab}")
            mon.same(V, X, "input is not modified", det + lab)
        W = f(X)
        W += 1e3
        for ff in pb.fidelities(other):
            getattr(q, ff)(pb.points(rng, pb.domain(other, dq), 3))
        for ff in pb.fidelities(name):
            getattr(p, ff)(pb.points(rng, dom, 3))
        same(f(X), "earlier evaluations do not matter")
        buf = X.copy()          # one array object, new contents
        f(buf)
        buf[:] = X[perm]
        mon.close(f(buf), Y[perm], tol[perm], "a reused array is read again",
                  det)
        mon.event("reused arrays")
        same(getattr(pb.cls(name)(d, **par), fid)(X),
             "another instance of the problem agrees")
        I = pb.int_points(rng, dom, 12)
        if I is not None:
            ref = np.asarray(f(I.astype(float)))
            for dt in (np.int64, np.int32):
                J = I.astype(dt)
                K = J.copy()
                mon.close(f(J), ref, 100 * pb.tol(name, ref),
                          "integer input equals float input",
                          lambda: f"{det} {J[0].tolist()}")
                mon.same(J, K, "input is not modified", det)
            mon.event("integer batches")
            mon.state(name, fid, "int")
        if name != "mf_Borehole":
            X4 = X[: n // 2].astype(np.float32)
            if name not in ("mf_Discontinuous",):
                ref = np.asarray(f(X4.astype(float)))
                sc = np.abs(Y).max() + 10
                mon.close(f(X4), ref, 2e-4 * sc,
                          "single precision input is not truncated", det)
    if name in pb.MF:
        Xh = pb.points(rng, dom, int(rng.integers(1, 8)))
        Xl = pb.points(rng, dom, int(rng.integers(1, 20)))
        kh, kl = Xh.copy(), Xl.copy()
        out = p([Xh, Xl])
        if mon.check(len(out) == 2, "one response array per fidelity", name):
            mon.close(out[0], p.hf(Xh), 0, "element 0 is the high fidelity",
                      name)
            mon.close(out[1], p.lf(Xl), 0, "element 1 is the low fidelity",
                      name)
        mon.check(np.array_equal(Xh, kh) and np.array_equal(Xl, kl),
                  "input is not modified", name)
        mon.event("two-fidelity calls")
