"""P17: surrogates are equivariant to the units of inputs and responses"""
import copy

import numpy as np

from harness.gen import EPS, R, query_points
from harness.surr import KINDS, Case

RULE = ("a case trains a surrogate and a twin on transformed data (response "
        "factor and offset, sign flip, affine change of every design variable "
        "with its bounds, permutation of the variables) with the same "
        "scripted correlation parameters and compares the predictions; "
        "non-trivial: each (surrogate, noise setting, transformation, "
        "dimension)")
MIN = {"twins compared": 1500, "far away units": 400, "likelihoods compared": 2500}


def cases(tier, rng):
    m = 8 if tier == "quick" else 40
    return [dict(kind=k) for k in KINDS for _ in range(140 * m)]


def twin(c):
    t = copy.copy(c)
    t.X, t.Y = [x.copy() for x in c.X], [y.copy() for y in c.Y]
    t.sp = c.sp.copy()
    return t


def outputs(c, m, Q):
    a, s = m.predict(Q.copy(), return_std=True)
    out = [np.asarray(a), np.asarray(s)**2]
    if c.kind != "GP":
        a, s = m.predict_lf(Q.copy(), return_std=True)
        out += [np.asarray(a), np.asarray(s)**2]
    return out


def run(spec, mon):
    rng = R(spec)
    kind = spec["kind"]
    c = Case(rng, kind, d=int(rng.integers(
        1, 5 if rng.random() < .94 else 11)), regr=True,
             nested=rng.random() < .3)
    # offsets far above the spread cost digits; keep the data centred enough
    mid = float(c.Y[-1].mean())
    c.Y = [y - mid for y in c.Y]
    for sd in (y.std() for y in c.Y):
        if max(np.abs(y).max() for y in c.Y) > 1e3 * sd:
            mon.reject("responses far from their spread")
    kw = {}
    if kind == "SK" and rng.random() < .35:
        kw["rho_optimize"] = True
    # where the likelihood is looked at, relative to the scripted answer
    steps = rng.uniform(-.25, .25, (4, 40))

    def probe(k, x):
        return x * np.exp(steps[:, :len(x)] * .1)
    c.probe = probe
    m = c.fit(**kw)
    seen0 = [q["seen"] for q in c.stub.calls]
    Q = query_points(rng, c.sp, c.X[0], 8)
    base = outputs(c, m, Q)
    r = c.ref(m)
    tm, tv = [float(np.max(t)) for t in r.predict(Q)[2:]]
    tols = [tm, tv]
    if kind != "GP":
        tols += [float(np.max(t)) for t in r.predict_lf(Q)[2:]]
    amp = 30.0      # both twins err, and the transformed data are rounded
    det0 = f"{kind} {c.regr} d={c.d} {c.mode} {kw}"
    extra = 1e4 * r.cond * EPS

    def likelihoods(calls, what, loss, det):
        # likelihood differences between parameters have no unit
        if not mon.check(len(calls) == len(seen0), "as many searches",
                         f"{len(calls)} {len(seen0)} {det0}"):
            return
        tl = len(c.X[-1]) * (1e-7 + 300 * loss * extra)
        if tl > 1e-2:
            return
        for a, b in zip(calls, seen0):
            # infeasible or failed points are no numbers on either side
            mon.close(a["seen"][1:] - a["seen"][0], b[1:] - b[0], tl * (
                1 + np.abs(b).max()), "likelihood: " + what,
                f"{det0} {det}")
            mon.event("likelihoods compared")

    def judge(t, P, what, a=1.0, b=0.0, det="", loss=1.0):
        if kw and b:
            return      # a least-squares scale depends on the offset
        mt = t.fit(**kw)
        got = outputs(t, mt, P)
        likelihoods(t.stub.calls, what, loss, det)
        for i, (g, w) in enumerate(zip(got, base)):
            y = c.Y[0] if i < 2 else c.Y[1]
            if i % 2:
                want, tl = a * a * w, amp * tols[i] + (
                    extra * loss * max(np.max(w), y.var()))
                tl *= a * a
            else:
                want = a * w + b
                tl = abs(a) * (amp * tols[i] + extra * loss * (
                    np.abs(w).max() + y.std())) + 1e-11 * abs(b)
            mon.close(g, want, tl, what, f"output {i} {det0} {det}")
        mon.event("twins compared")
        mon.state(kind, c.regr, c.mode, what, c.d, len(kw))

    def responses(a, b):
        t = twin(c)
        t.Y = [a * y + b for y in c.Y]
        if t.prior is not None:
            t.prior = abs(a) * t.prior
        return t
    a = float(10**rng.uniform(-7, 7))
    judge(responses(a, 0.0), Q, "response factor", a, det=f"a={a}")
    b = float(rng.normal() * 20 * c.Y[0].std())
    judge(responses(1.0, b), Q, "response offset", 1.0, b, f"b={b}", 100)
    judge(responses(-1.0, 0.0), Q, "response sign", -1.0)
    a = -float(10**rng.uniform(-2, 2))
    b = float(rng.normal() * 5 * abs(a) * c.Y[0].std())
    judge(responses(a, b), Q, "response factor and offset", a, b,
          f"a={a} b={b}", 100)
    # units of the design variables, with their bounds
    al = 10**rng.uniform(-3, 3, c.d)
    if rng.random() < .3:       # any unit that there may be
        al = 10**rng.uniform(-25, 25, c.d)
        mon.event("far away units")
    if rng.random() < .4:
        al = al * rng.choice([-1, 1], c.d)
    w = c.sp[:, 1] - c.sp[:, 0]
    off = rng.normal(size=c.d) * 3 * np.abs(al) * w - al * c.sp[:, 0]
    lost = 10 + float(np.max(np.abs(c.sp).max(1) / w))
    t = twin(c)
    tr = lambda X: al * X + off                                # noqa: E731
    t.sp = np.sort(np.stack([tr(c.sp[:, 0]), tr(c.sp[:, 1])], 1), axis=1)
    t.X = [tr(x) for x in c.X]
    judge(t, tr(Q), "units of the design variables", det=f"al={al}",
          loss=lost)
    # order of the design variables
    if c.d > 1:
        p = rng.permutation(c.d)
        t = twin(c)
        t.sp = c.sp[p]
        t.X = [x[:, p] for x in c.X]
        t.probe = lambda k, x: par(probe(k, par(x, lead[min(k, 1)], True)),
                                   lead[min(k, 1)])

        def par(v, lead=0, back=False):
            v = np.array(v, float)
            o = np.argsort(p) if back else p
            th = v[..., lead:lead + c.d][..., o]
            return np.concatenate([v[..., :lead], th, v[..., lead + c.d:]],
                                  -1)
        lead = [0, 0]
        if kind == "CK":
            lead[1] = 2 if c.mode == "est" else 1
        t.answers = [par(v, lead[i]) for i, v in enumerate(c.answers)]
        judge(t, Q[:, p], "order of the design variables", det=f"p={p}")
