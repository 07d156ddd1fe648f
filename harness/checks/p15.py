"""P15: prediction is a pure function of the point"""
import numpy as np

from harness.gen import R, query_points, variants
from harness.surr import KINDS, Case

RULE = ("a case trains two or three surrogates, records the prediction of "
        "every point of a pool on its own, and then replays the pool through "
        "a random history of calls (batches, orders, layouts, dtypes, with "
        "and without std, both fidelities, other models and global random "
        "draws in between); non-trivial: each (surrogate, predictor, call "
        "form)")
MIN = {"predictions compared": 20000, "integer batches": 100,
       "training set as batch": 200, "calls": 4000, "retrained": 60, "reused buffers": 800,
       "large batches": 150}


def cases(tier, rng):
    m = 6 if tier == "quick" else 40
    return [dict(kind=k, default=i % 6 == 0) for k in KINDS
            for i in range(70 * m)]


class Live:
    def __init__(self, rng, kind, default, integer):
        self.c = Case(rng, kind, default=default, d=int(rng.integers(1, 4)),
                      space="int" if integer else None, regr=True,
                      nested=rng.random() < .4)
        c = self.c
        kw = {}
        if kind == "SK" and rng.random() < .3:
            kw["rho_optimize"] = True
        np.random.seed(4711)        # the scale search starts at random
        self.m = c.fit(**kw)
        self.Q = np.vstack([query_points(rng, c.sp, c.X[0], 6), c.X[0],
                            c.X[-1]])
        if integer:
            self.I = rng.integers(c.sp[:, 0].astype(int), c.sp[:, 1].astype(
                int) + 1, (6, c.d))
            self.Q = np.vstack([self.Q, self.I])
        else:
            self.I = None
        self.buf = self.Q[:4].copy()
        self.preds = ["predict"] + ([] if kind == "GP" else ["predict_lf"])
        r = c.ref(self.m)
        self.tol, self.base = {}, {}
        for p in self.preds:
            f = r.predict if p == "predict" else r.predict_lf
            tm, tv = f(self.Q)[2:]
            self.tol[p] = (2 * float(np.max(tm)), 2 * float(np.max(tv)))
            one = [getattr(self.m, p)(self.Q[i:i + 1].copy(),
                                      return_std=True)
                   for i in range(len(self.Q))]
            self.base[p] = (np.vstack([a for a, _ in one]),
                            np.vstack([b for _, b in one])**2)
        self.snap = self.state()

    def state(self):
        m = self.m
        out = []
        for o in (m, getattr(m, "lfGP", None), getattr(m, "disc_model",
                                                       None)):
            if o is None:
                continue
            out.append([np.array(o.kernel.param, float).copy(),
                        float(np.ravel(o.noise)[0])])
            for a in ("sample_x", "sample_y", "sample_xh", "sample_yh",
                      "sample_xl", "sample_yl", "rho"):
                if hasattr(o, a):
                    out.append(np.array(getattr(o, a), float).copy())
        return out


def run(spec, mon):
    rng = R(spec)
    live = []
    kinds = [spec["kind"]] + list(rng.choice(KINDS, int(rng.integers(1, 3))))
    for k in kinds:
        live.append(Live(rng, str(k), spec["default"], rng.random() < .4))
    for step in range(24):
        L = live[int(rng.integers(len(live)))]
        p = str(rng.choice(L.preds))
        f = getattr(L.m, p)
        op = str(rng.choice(["subset", "permute", "repeat", "layout", "int",
                             "train set", "rng", "one", "buffer", "buffer",
                             "many"]))
        n = len(L.Q)
        idx = rng.permutation(n)
        if op == "subset":
            idx = idx[: int(rng.integers(1, n + 1))]
        elif op == "repeat":
            idx = rng.integers(n, size=int(rng.integers(2, 40)))
        elif op == "many":      # more points than any internal block
            k = int(rng.choice([64, 100, 128, 200, 256, 500, 512, 1000, 1024,
                                2000, 5000], p=[.12] * 8 + [.015] * 2
                               + [.01]))
            idx = rng.integers(n, size=k + int(rng.integers(-1, 2)))
            mon.event("large batches")
        elif op == "one":
            idx = idx[:1]
        X = L.Q[idx].copy()
        if op == "buffer":      # the same array object with other contents
            idx = rng.integers(n, size=len(L.buf))
            L.buf[:] = L.Q[idx]
            X = L.buf
            mon.event("reused buffers")
        if op == "train set":
            X = L.c.X[0 if rng.random() < .5 else -1].copy()
            if rng.random() < .5:
                X = X[rng.permutation(len(X))]
            idx = np.array([np.flatnonzero((L.Q == x).all(1))[0] for x in X])
            mon.event("training set as batch")
        if op == "layout":
            vs = variants(X, rng)
            X = vs[int(rng.integers(len(vs)))][1]
        if op == "int":
            if L.I is None:
                continue
            X = L.I.astype(rng.choice([np.int64, np.int32])).copy()
            idx = np.arange(n - len(L.I), n)
            mon.event("integer batches")
        if op == "rng":
            np.random.seed(int(rng.integers(2**31)))
            np.random.random(7)
        keep = np.array(X, copy=True)
        det = f"{L.c.kind}.{p} {op} n={len(X)} {L.c.mode}"
        st = rng.random() < .6
        out = f(X, return_std=True) if st else f(X)
        mean = out[0] if st else out
        a, v = L.base[p]
        ta, tv = L.tol[p]
        mon.close(mean, a[idx], ta, "mean depends on the point only", det)
        if st:
            mon.close(np.asarray(out[1])**2, v[idx], tv,
                      "std depends on the point only", det)
        mon.same(X, keep, "the query is not modified", det)
        mon.check(X.dtype == keep.dtype, "the query is not modified", det)
        mon.event("predictions compared", len(X))
        mon.event("calls")
        mon.state(L.c.kind, p, op, st)
        # results handed out belong to the caller
        np.asarray(mean)[...] = -1e9
        if st:
            np.asarray(out[1])[...] = -1e9
        for M in live:
            now = M.state()
            ok = len(now) == len(M.snap) and all(
                np.array_equal(u[0], w[0]) and u[1] == w[1]
                if isinstance(u, list) else np.array_equal(u, w)
                for u, w in zip(now, M.snap))
            mon.check(ok, "predicting changes no model",
                      f"{M.c.kind} after {det}")
    # a used model retrains to the same model
    for L in live:
        if L.c.default:
            continue
        L.c.stub.calls.clear()
        np.random.seed(4711)
        L.m.train(*L.c.args())
        for p in L.preds:
            a, s = getattr(L.m, p)(L.Q.copy(), return_std=True)
            mon.close(a, L.base[p][0], L.tol[p][0],
                      "retraining after predictions gives the same model",
                      f"{L.c.kind}.{p} {L.c.mode}")
            mon.close(np.asarray(s)**2, L.base[p][1], L.tol[p][1],
                      "retraining after predictions gives the same std",
                      f"{L.c.kind}.{p} {L.c.mode}")
        mon.event("retrained")
