"""P16: training depends only on the data it is given"""
import numpy as np

from harness.gen import R, query_points
from harness.surr import KINDS, Case

RULE = ("a case trains surrogates through a history (train on A, predict, "
        "train on B, on A again, other models in between, mutation of the "
        "caller's arrays) and compares with fresh models trained once, under "
        "a scripted optimizer and under the default search from the same "
        "random seed; non-trivial: each (surrogate, noise setting, "
        "optimizer, relation)")
MIN = {"retrainings judged": 400, "reported samples": 400, "mutations judged": 300,
       "row orders judged": 250, "flat responses judged": 60,
       "default search": 40,
       "trained beyond the design space": 120}


def cases(tier, rng):
    m = 6 if tier == "quick" else 30
    return [dict(kind=k, default=i % 6 == 0) for k in KINDS
            for i in range(150 * m)]


def outputs(m, Q, kind):
    # always the same array object: nothing may be remembered by it
    out = list(m.predict(Q, return_std=True))
    if kind != "GP":
        out += list(m.predict_lf(Q, return_std=True))
    return [np.array(o, float) for o in out]


def run(spec, mon):
    rng = R(spec)
    kind, default = spec["kind"], spec["default"]
    d = int(rng.integers(1, 4))
    mode = str(rng.choice(["free", "given", "est"]))
    A = Case(rng, kind, d=d, mode=mode, default=default, regr=True)
    B = Case(rng, kind, d=d, mode=mode, default=default)
    # B lives in A's space with A's settings, but has other data
    B.X = [A.sp[:, 0] + (x - B.sp[:, 0]) / (B.sp[:, 1] - B.sp[:, 0])
           * (A.sp[:, 1] - A.sp[:, 0]) for x in B.X]
    B.sp, B.prior, B.restart, B.regr = A.sp, A.prior, A.restart, A.regr
    if mode == "given":
        B.s = A.prior / float(B.Y[0].std())
        if not 3e-3 < B.s < 1 and not default:
            mon.reject("noise out of proportion")
    kw = {}
    if kind == "SK" and rng.random() < .3:
        kw["rho_optimize"] = True
    # both data sets use the parameters scripted for A resp. B
    script = []
    m = A.build(**kw)
    seed = int(rng.integers(2**31))

    def train(model, c, shuffle=False, flat=False):
        args = c.args()
        if not default:
            model_stub = model_stubs[id(model)]
            model_stub.answers = list(c.answers)
            model_stub.calls.clear()
        if flat:
            args = (args[0], args[1].ravel())
        if shuffle:
            if kind == "GP":
                p = rng.permutation(len(args[0]))
                args = (args[0][p], args[1][p])
            else:
                ps = [rng.permutation(len(x)) for x in args[0]]
                args = tuple([a[p] for a, p in zip(arr, ps)] for arr in args)
        np.random.seed(seed)
        model.train(*args)
        return args
    model_stubs = {id(m): A.stub}
    keepalive = [m]

    def fresh(c, **t):
        x = c.build(**kw)
        keepalive.append(x)
        model_stubs[id(x)] = c.stub
        args = train(x, c, **t)
        return x, args
    Q = query_points(rng, A.sp, A.X[0], 8)
    fa, argsA = fresh(A)
    fb, _ = fresh(B)
    base = dict(A=outputs(fa, Q, kind), B=outputs(fb, Q, kind))
    tol = {}
    for n, c, f in (("A", A, fa), ("B", B, fb)):
        r = c.ref(f)
        tm, tv = [2 * float(np.max(t)) for t in r.predict(Q)[2:]]
        tl = [tm, tv]
        if kind != "GP":
            tl += [2 * float(np.max(t)) for t in r.predict_lf(Q)[2:]]
        tol[n] = tl
    det = f"{kind} {A.regr} d={d} {mode} default={default} {kw}"

    def same(model, n, what):
        got = outputs(model, Q, kind)
        for i, (g, w) in enumerate(zip(got, base[n])):
            if i % 2:
                g, w = g**2, w**2
            mon.close(g, w, tol[n][i], what, f"output {i} of {det}")
        mon.state(kind, mode, default, what)
    hist = [str(x) for x in rng.choice(["A", "B"], int(rng.integers(2, 5)))]
    out = int(rng.integers(0, 2 * len(hist)))
    for i, n in enumerate(hist):
        if i == out:            # meanwhile, data beyond the design space
            keep = B.X
            B.X = [A.sp.mean(1) + 1.7 * (x - A.sp.mean(1)) for x in B.X]
            train(m, B)
            B.X = keep
            mon.event("trained beyond the design space")
        c = dict(A=A, B=B)[n]
        args = train(m, c)
        if rng.random() < .5:
            m.predict(Q, return_std=True)
        same(m, n, "a retrained model equals a fresh one")
        mon.event("retrainings judged")
        script.append(n)
    mon.event("default search" if default else "scripted search")
    # the caller's arrays: not modified, not kept
    flatten = lambda a: ([a[0], a[1]] if kind == "GP"      # noqa: E731
                         else list(a[0]) + list(a[1]))
    want = flatten(dict(A=A, B=B)[hist[-1]].args())
    for g, w in zip(flatten(args), want):
        mon.same(g, w, "the caller's arrays are not modified", det)
    if kind != "GP":
        mon.check(len(args[0]) == 2 and len(args[1]) == 2,
                  "the caller's lists are not modified", det)
    for g in flatten(args):
        g[...] = 1e3 * rng.normal(size=g.shape)
    if kind != "GP":
        args[0].clear()
        args[1].clear()
    same(m, hist[-1], "later changes of the caller's arrays have no effect")
    mon.event("mutations judged")
    # nor on the models trained meanwhile
    same(fa, "A", "training one model does not affect another")
    same(fb, "B", "training one model does not affect another")
    if not default:
        x, _ = fresh(A, shuffle=True)
        if "rho_optimize" not in kw:
            same(x, "A", "row order does not matter")
            mon.event("row orders judged")
        if kind == "GP":
            x, _ = fresh(A, flat=True)
            same(x, "A", "responses may be flat")
            mon.event("flat responses judged")
    # stored copies are the data of the last training
    c = dict(A=A, B=B)[hist[-1]]
    if kind == "GP":
        mon.same(m.sample_x, c.X[0], "the model reports its samples", det)
        mon.same(np.ravel(m.sample_y), np.ravel(c.Y[0]),
                 "the model reports its responses", det)
    else:
        for k, z in enumerate("hl"):
            for name, v in (("sample_x" + z, c.X[k]), (
                    f"_get_sample_{z}f", c.X[k]), ("sample_y" + z, c.Y[k])):
                if hasattr(m, name):
                    mon.same(np.ravel(getattr(m, name)), np.ravel(v),
                             "the model reports its samples",
                             f"{name} {det}")
                    mon.event("reported samples")
