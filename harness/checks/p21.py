"""P21: each fidelity's data is used for that fidelity only, all of it"""
import copy

import numpy as np

from harness.gen import R, query_points
from harness.surr import Case

RULE = ("a case trains one multi-fidelity surrogate and twins that differ in "
        "one observation, one point or the order of the lists, with the same "
        "scripted parameters, and compares the change of both predictors with "
        "the change of the reference; non-trivial: each (surrogate, noise "
        "setting, perturbed fidelity, kind of change)")
MIN = {"observations perturbed": 900, "low-fidelity invariances": 300,
       "reported samples": 250, "reactions judged": 500,
       "histories judged": 60}


def cases(tier, rng):
    m = 10 if tier == "quick" else 30
    return [dict(kind=k) for k in ("HK", "SK", "CK") for _ in range(120 * m)]


def twin(c):
    t = copy.copy(c)
    t.X, t.Y = [x.copy() for x in c.X], [y.copy() for y in c.Y]
    return t


def both(m, Q):
    a, s = m.predict(Q.copy(), return_std=True)
    b, t = m.predict_lf(Q.copy(), return_std=True)
    return [np.asarray(v, float) for v in (a, s, b, t)]


def reported(mon, m, c, det):
    mon.same(m._get_sample_hf, c.X[0], "reported high-fidelity samples", det)
    mon.same(m._get_sample_lf, c.X[1], "reported low-fidelity samples", det)
    mon.same(m.sample_xh, c.X[0], "reported high-fidelity samples", det)
    mon.same(m.sample_xl, c.X[1], "reported low-fidelity samples", det)
    mon.close(np.ravel(m.sample_yh), c.Y[0].ravel(), 0,
              "reported high-fidelity responses", det)
    mon.close(np.ravel(m.sample_yl), c.Y[1].ravel(), 0,
              "reported low-fidelity responses", det)
    mon.check(m._num_xh == len(c.X[0]) and m._num_xl == len(c.X[1]),
              "reported sample counts", f"{m._num_xh} {m._num_xl} {det}")
    mon.event("reported samples")


def run(spec, mon):
    rng = R(spec)
    kind = spec["kind"]
    kw = {}
    if rng.random() < .3:       # more high- than low-fidelity data
        kw = dict(nh=int(rng.integers(9, 14)), nl=int(rng.integers(6, 9)))
    c = Case(rng, kind, d=int(rng.integers(1, 4)), nested=rng.random() < .4
             and not kw, **kw)
    det = (f"{kind} {c.mode} d={c.d} nh={len(c.X[0])} nl={len(c.X[1])}")
    m = c.fit()
    reported(mon, m, c, det)
    Q = np.vstack([query_points(rng, c.sp, c.X[0], 6), c.X[0], c.X[1]])
    base = both(m, Q)
    r = c.ref(m)
    rm, rv, tm, tv = r.predict(Q)
    lm, lv, tlm, tlv = r.predict_lf(Q)
    tm, tv, tlm, tlv = [float(np.max(t)) for t in (tm, tv, tlm, tlv)]
    if tm > 1e-3 * c.Y[0].std() or tlm > 1e-3 * c.Y[1].std():
        mon.event("badly conditioned, not judged")
        return

    def low_unchanged(x, what):
        # co-kriging scales the low-fidelity data with the high-fidelity
        # ones, which also rescales a given or estimated relative noise
        if kind == "CK" and c.mode != "free":
            return
        got = both(x, Q)
        mon.close(got[2], base[2], 4 * tlm, what, det)
        mon.close(got[3]**2, base[3]**2, 4 * tlv, what + " (std)", det)
        mon.event("low-fidelity invariances")
    # a high-fidelity observation changes the high fidelity only
    for fid in (0, 1):
        for _ in range(2):
            t = twin(c)
            i = int(rng.integers(len(t.Y[fid])))
            t.Y[fid][i] += rng.choice([-1, 1]) * rng.uniform(.3, 1.5) * t.Y[
                fid].std()
            x = t.fit()
            got = both(x, Q)
            rt = t.ref(x)
            rm2, rv2, tm2, tv2 = rt.predict(Q)
            tm2 = float(np.max(tm2))
            move, rmove = got[0] - base[0], rm2 - rm
            if tm2 < 1e-3 * c.Y[0].std():
                mon.close(move, rmove, tm + tm2, "the high fidelity reacts "
                          "to every observation as the reference does",
                          f"fidelity {fid} obs {i} {det}")
                if np.abs(rmove).max() > 20 * (tm + tm2):
                    mon.check(np.abs(move).max() > 0, "the high fidelity "
                              "reacts", det)
                    mon.event("reactions judged")
            if fid == 0:
                low_unchanged(x, "high-fidelity responses leave the low "
                              "fidelity alone")
            else:
                l2, lv2, tl2, _ = rt.predict_lf(Q)
                mon.close(got[2] - base[2], l2 - lm, tlm + float(np.max(tl2)),
                          "the low fidelity reacts to its observations",
                          f"obs {i} {det}")
                mon.check(np.abs(got[2] - base[2]).max() > 0,
                          "the low fidelity reacts", det)
            mon.event("observations perturbed")
            mon.state(kind, c.mode, fid, "response")
    # a different high-fidelity point leaves the low fidelity alone
    t = twin(c)
    i = int(rng.integers(len(t.X[0])))
    t.X[0][i] = c.sp[:, 0] + rng.random(c.d) * (c.sp[:, 1] - c.sp[:, 0])
    try:
        x = t.fit()
    except np.linalg.LinAlgError:
        x = None            # the moved point may fall onto another one
    if x is not None:
        low_unchanged(x, "high-fidelity points leave the low fidelity alone")
        reported(mon, x, t, det)
        mon.state(kind, c.mode, 0, "point")
    # dropping high-fidelity data leaves the low fidelity alone
    t = twin(c)
    t.X[0], t.Y[0] = t.X[0][1:], t.Y[0][1:]
    x = t.fit()
    low_unchanged(x, "the number of high-fidelity data leaves the low "
                  "fidelity alone")
    mon.state(kind, c.mode, 0, "drop")
    # element 0 is the high fidelity
    if kind != "CK" or c.mode == "free":
        t = twin(c)
        t.X, t.Y = t.X[::-1], t.Y[::-1]
        t.answers = [c.answers[0], c.answers[1]]
        x = t.build()
        try:
            x.train(*t.args())
        except np.linalg.LinAlgError:
            x = None
        if x is not None:
            mon.same(x.sample_xh, c.X[1], "element 0 is the high fidelity",
                     det)
            mon.same(x.sample_xl, c.X[0], "element 1 is the low fidelity",
                     det)
            mon.state(kind, c.mode, "swap")
    # after training on other data only the last data counts
    if rng.random() < .6:
        t = twin(c)
        k = len(t.X[1]) - 2
        t.X[1], t.Y[1] = t.X[1][:k], t.Y[1][:k] * 1.5
        stub = c.stub
        m2 = c.build()
        c.stub.answers = t.answers
        m2.train(*t.args())
        c.stub.calls.clear()
        m2.train(*c.args())
        got = both(m2, Q)
        mon.close(got[0], base[0], 4 * tm, "only the last training counts",
                  det)
        mon.close(got[2], base[2], 4 * tlm, "only the last training counts",
                  det)
        reported(mon, m2, c, det)
        mon.event("histories judged")
        c.stub = stub
