"""P10: the RBF kernel is the anisotropic Gaussian correlation it claims"""
import numpy as np

from harness.gen import RBF, R, EPS, corr, variants
from mfpml.models.kernels import kronDelta

RULE = ("a case drives a history on several RBF kernels of one process "
        "(create, set_params, evaluate stored, evaluate explicit) over random "
        "point sets and compares every matrix with the pairwise formula; "
        "non-trivial: each (dimension, operation, set sizes class)")
MIN = {"matrices judged": 6000, "self matrices": 1200, "explicit": 1500,
       "instances re-read": 4000, "large sets": 30, "equal rows": 400}


def cases(tier, rng):
    return [dict(kind="history") for _ in
            range(1500 if tier == "quick" else 6000)]


def pts(rng, n, d):
    k = rng.integers(4)
    X = rng.random((n, d))
    if k == 1:
        X = X * 4 - 2
    elif k == 2:
        X = rng.integers(0, 4, (n, d)) / 3.0
    elif k == 3 and n > 1:
        X[1:] = X[:-1] + 1e-4 * rng.normal(size=(n - 1, d))
    return X


def tol(X, Y, th):
    m = max(np.abs(X).max(), np.abs(Y).max())**2 * np.sum(th)
    return 60 * EPS * (m + 1) + 2e-16


def run(spec, mon):
    rng = R(spec)
    live = []
    for step in range(int(rng.integers(6, 14))):
        op = str(rng.choice(["new", "set", "eval", "explicit"],
                            p=[.25, .2, .3, .25]))
        if not live or op == "new":
            d = int(rng.integers(1, 9) if rng.random() < .95
                    else rng.integers(9, 40))
            lo = float(rng.uniform(-5, 0))
            b = [lo, lo + float(rng.uniform(1, 6))]
            t = rng.uniform(b[0], b[1], d)
            arg = t.reshape(1, -1).copy() if rng.random() < .2 else t.copy()
            if rng.random() < .25:
                k, b = RBF(arg), [-2, 3]
            else:
                k = RBF(arg, bounds=list(b))
            mon.same(arg.ravel(), t, "the given parameters are not modified")
            live.append([k, d, t, b])
        i = int(rng.integers(len(live)))
        k, d, t, b = live[i]
        if op == "set":
            t = rng.uniform(b[0], b[1], d)
            arg = t.copy()
            k.set_params(arg)
            live[i][2] = t
            arg[:] = 99         # the kernel must not keep the caller's array
            mon.close(np.ravel(k.param), 10.0**t, 1e-13 * 10.0**t,
                      "set_params stores 10**params")
            mon.state(d, "set")
        n1, n2 = rng.choice([1, 2, 5, 17, 40], 2)
        if rng.random() < .04:      # large sets
            n1, n2 = rng.integers(100, 420, 2)
            mon.event("large sets")
        X, Y = pts(rng, n1, d), pts(rng, n2, d)
        if rng.random() < .3:
            Y[: min(n1, n2)] = X[: min(n1, n2)]
        kx, ky = X.copy(), Y.copy()
        det = f"d={d} n={n1},{n2} theta={10.0**t}"

        def both(A, B, what):
            """stored and explicit evaluation against the formula"""
            ref = corr(A, B, 10.0**t)
            tl = tol(A, B, 10.0**t) + (2e-10 if A is B else 0)
            M = k.get_kernel_matrix(A, B)
            mon.close(M, ref, tl, what, det)
            mon.event("matrices judged")
            return M, ref, tl
        M, ref, tl = both(X, Y, "entries are exp(-sum theta (x-y)^2)")
        mon.state(d, op, n1 > 1, n2 > 1)
        # explicit parameters equal set parameters and leave the kernel alone
        t2 = rng.uniform(b[0], b[1], d)
        before = np.array(k.param, float).copy()
        ft = t2.copy()
        E = k(X, Y, ft)
        mon.close(E, corr(X, Y, 10.0**t2), tol(X, Y, 10.0**t2),
                  "explicit log10 parameters give the same formula", det)
        mon.same(ft, t2, "explicit parameters are not modified")
        mon.same(k.param, before, "evaluating does not touch the parameters")
        mon.close(k(X, Y, t), M, tl, "explicit equals stored evaluation", det)
        k2 = RBF(np.zeros(d), bounds=list(b))
        k2.set_params(t2)
        mon.close(k2.get_kernel_matrix(X, Y), E, tol(X, Y, 10.0**t2),
                  "explicit equals setting them and evaluating", det)
        mon.event("explicit")
        mon.event("matrices judged", 3)
        # symmetry, diagonal, positive definiteness of a self matrix
        S, sref, sl = both(X, X, "entries of a set with itself")
        mon.close(S, S.T, sl, "a self matrix is symmetric", det)
        mon.close(np.diag(S), np.ones(n1), sl, "unit diagonal", det)
        mon.check(np.linalg.eigvalsh((S + S.T) / 2).min() >= -1e-9 - 2 * n1
                  * sl, "a self matrix is positive semi-definite",
                  lambda: f"{np.linalg.eigvalsh(S).min()} {det}")
        Se = k(X, X, t2)
        mon.close(Se, corr(X, X, 10.0**t2), tol(X, X, 10.0**t2) + 2e-10,
                  "explicit self matrix", det)
        off = ~np.eye(n1, dtype=bool)
        if n1 > 1:
            mon.close(S[off], sref[off], tol(X, X, 10.0**t),
                      "off-diagonal entries of a self matrix", det)
        mon.event("self matrices")
        # entries do not depend on the rest of the sets or their order
        p1, p2 = rng.permutation(n1), rng.permutation(n2)
        mon.close(k.get_kernel_matrix(X[p1], Y[p2]), M[np.ix_(p1, p2)],
                  2 * tl, "row and column order", det)
        a, c = int(rng.integers(n1)), int(rng.integers(n2))
        mon.close(k.get_kernel_matrix(X[a:a + 1], Y[c:c + 1])[0, 0], M[a, c],
                  2 * tl, "an entry needs only its two points", det)
        mon.close(k.get_kernel_matrix(Y, X), M.T, 2 * tl,
                  "swapping the sets transposes", det)
        for lab, V in variants(X, rng):
            mon.close(k.get_kernel_matrix(V, Y), M, 2 * tl,
                      f"memory layout: {lab}", det)
        mon.check(np.array_equal(X, kx) and np.array_equal(Y, ky),
                  "the point sets are not modified", det)
        # the same array objects with new contents, or new parameters
        bx, by = X.copy(), Y.copy()
        k.get_kernel_matrix(bx, by), k(bx, by, t2), k.get_kernel_matrix(bx, bx)
        bx[:], by[:] = X[::-1], Y[p2]
        mon.close(k.get_kernel_matrix(bx, by), M[::-1][:, p2], 2 * tl,
                  "reused arrays are read again", det)
        mon.close(k(bx, by, t2), E[::-1][:, p2], 2 * tol(X, Y, 10.0**t2),
                  "reused arrays are read again (explicit)", det)
        mon.close(k.get_kernel_matrix(bx, bx), S[::-1, ::-1], 2 * sl,
                  "reused arrays are read again (self)", det)
        k2.get_kernel_matrix(bx, bx)
        k2.set_params(t.copy())
        mon.close(k2.get_kernel_matrix(bx, by), M[::-1][:, p2], 2 * tl,
                  "set_params counts from the next evaluation on", det)
        # equal rows of two sets
        D = np.sqrt(((X[:, None] - Y[None])**2).sum(-1))
        K = np.asarray(kronDelta(X, Y))
        mon.check(K.shape == D.shape and (K[D == 0] == 1).all()
                  and (K[D > 1e-5] == 0).all(),
                  "the Kronecker delta marks equal rows", det)
        mon.event("equal rows", int((D == 0).sum()))
        # every live kernel still is what it was
        for kk, dd, tt, bb in live:
            mon.close(np.ravel(kk.param), 10.0**tt, 1e-13 * 10.0**tt,
                      "parameters belong to the kernel instance")
            mon.check(kk._get_num_para == dd and kk.num_para == dd,
                      "parameter count", f"{kk._get_num_para} != {dd}")
            B = np.tile(np.array(bb, float), (dd, 1))
            mon.same(np.asarray(kk._get_bounds, float), B, "log bounds")
            mon.same(np.asarray(kk._get_bounds_list, float), B,
                     "log bounds as list")
            mon.same(np.asarray(kk._get_low_bound, float), B[:, 0],
                     "lower log bounds")
            mon.same(np.asarray(kk._get_high_bound, float), B[:, 1],
                     "upper log bounds")
            mon.same(np.ravel(kk.hyperparameters), np.ravel(kk.param),
                     "list of parameters")
            mon.same(np.ravel(kk._get_param), np.ravel(kk.param),
                     "current parameters")
            mon.event("instances re-read")
