"""P33: surrogates become accurate with data and know how accurate they are"""
import numpy as np

from harness import problems as pb
from harness.gen import CK, GP, HK, SK, R, Smooth, lhs, space, uniform

RULE = ("a case trains surrogates with their default search on smooth "
        "responses (random functions and benchmark problems, known noise or "
        "none) and measures errors and standardized errors at fresh points "
        "of the domain; the verdict is over all cases of a kind; "
        "non-trivial: each (kind, function, dimension, accuracy class)")
MIN = {"single-fidelity fits": 80, "two-fidelity fits": 90,
       "noisy fits": 40, "noisy two-fidelity fits": 40, "points judged": 20000}
BENCH = ["Forrester", "Branin", "Sixhump", "Hartman3"]
MFB = ["Forrester_1a", "Forrester_1b", "mf_Hartman3", "mf_Sixhump",
       "mf_Booth", "mf_Himmelblau"]


def cases(tier, rng):
    m = 4 if tier == "quick" else 25
    out = [dict(kind="learn") for _ in range(70 * m)]
    out += [dict(kind="bench", name=n) for n in BENCH for _ in range(5 * m)]
    out += [dict(kind="mf", cls=k) for k in ("HK", "SK", "CK")
            for _ in range(30 * m)]
    out += [dict(kind="mfbench", cls=k, name=n) for k in ("HK", "SK", "CK")
            for n in MFB for _ in range(m)]
    out += [dict(kind="noise", est=bool(e)) for e in (0, 1)
            for _ in range(25 * m)]
    out += [dict(kind="mfnoise", cls=k, est=bool(e)) for k in ("HK", "SK",
                                                               "CK")
            for e in (0, 1) for _ in range(8 * m)]
    return out


def rmse(a, b):
    return float(np.sqrt(np.mean((np.ravel(a) - np.ravel(b))**2)))


def calibrated(mon, m, Q, t, tag, extra=0.0):
    """standardized errors; a small floor for rounding"""
    a, s = m.predict(Q.copy(), return_std=True)
    s = np.ravel(s) + 1e-6 * t.std() + extra
    z = np.abs(np.ravel(a) - np.ravel(t)) / s
    mon.event("points judged", len(Q))
    mon.event(tag + " points", len(Q))
    mon.event(tag + " within 3 std", int((z < 3).sum()))
    mon.event(tag + " beyond half a std", int((z > .5).sum()))
    mon.event(tag + " within 10 std", int((z < 10).sum()))
    return a


def run(spec, mon):
    rng = R(spec)
    kind = spec["kind"]
    np.random.seed(int(rng.integers(2**31)))
    if kind in ("learn", "bench"):
        if kind == "learn":
            d = int(rng.integers(1, 4))
            sp = space(rng, d).astype(float)
            f = Smooth(rng, sp)
        else:
            p = pb.cls(spec["name"])()
            f, sp = p.f, np.array(p.input_domain, float)
            d = len(sp)
        n = {1: 8, 2: 25, 3: 45}[d]
        Q = uniform(rng, sp, 200)
        t = f(Q)
        err = []
        for k in (n // 2, n):
            X = lhs(rng, sp, k)
            m = GP(sp.copy(), optimizer_restart=4)
            m.train(X, f(X))
            a = calibrated(mon, m, Q, t, "single-fidelity")
            err.append(rmse(a, t) / t.std())
        mon.event("fits no worse than a few times the spread",
                  int(err[1] < 2))
        mon.event("single-fidelity fits")
        mon.event("noise-free fits")
        mon.event(kind + " fits")
        mon.event(kind + " accurate", int(err[1] < .25))
        mon.event(kind + " improved by data", int(err[1] < err[0]))
        mon.state(kind, d, spec.get("name"), round(np.log10(err[1])))
        mon.sample = dict(kind=kind, d=d, errors=err)
        return
    if kind in ("mf", "mfbench"):
        if kind == "mf":
            d = int(rng.integers(1, 4))
            sp = space(rng, d).astype(float)
            lf = Smooth(rng, sp)
            dis = Smooth(rng, sp, scale=lf.s * .1)
            dis.w *= .4
            a = float(rng.uniform(.5, 2)) if spec["cls"] != "SK" else 1.0
            hf = lambda X: a * lf(X) + dis(X)             # noqa: E731
        else:
            p = pb.cls(spec["name"])()
            hf, lf, sp = p.hf, p.lf, np.array(p.input_domain, float)
            d = len(sp)
        nl, nh = {1: (14, 4), 2: (45, 8), 3: (80, 12)}[d]
        Xl, Xh = lhs(rng, sp, nl), lhs(rng, sp, nh)
        Q = uniform(rng, sp, 200)
        t = hf(Q)
        cls = dict(HK=HK, SK=SK, CK=CK)[spec["cls"]]
        kw = dict(rho_optimize=True) if (
            spec["cls"] == "SK" and rng.random() < .5) else {}
        m = cls(sp.copy(), optimizer_restart=2, noise_prior=0.0, **kw)
        m.train([Xh, Xl], [hf(Xh), lf(Xl)])
        e = rmse(calibrated(mon, m, Q, t, "two-fidelity"), t) / t.std()
        g = GP(sp.copy(), optimizer_restart=4)
        g.train(Xh, hf(Xh))
        e1 = rmse(g.predict(Q.copy()), t) / t.std()
        lo = lf(Q)
        el = rmse(m.predict_lf(Q.copy()), lo) / lo.std()
        mon.event("fits no worse than a few times the spread",
                  int(e < 4 and el < 2))
        mon.event("two-fidelity fits")
        mon.event("noise-free fits")
        mon.event(kind + " fits")
        mon.event(kind + " accurate", int(e < .25))
        mon.event(kind + " better than high-fidelity data alone",
                  int(e < e1))
        mon.event(kind + " low fidelity accurate", int(el < .25))
        mon.state(kind, spec["cls"], d, spec.get("name"), len(kw))
        mon.sample = dict(kind=kind, cls=spec["cls"], d=d, error=e, alone=e1)
        return
    if kind == "mfnoise":
        d = int(rng.integers(1, 3))
        sp = space(rng, d).astype(float)
        lf = Smooth(rng, sp)
        dis = Smooth(rng, sp, scale=lf.s * .1)
        dis.w *= .4
        a = float(rng.uniform(.5, 2)) if spec["cls"] != "SK" else 1.0
        hf = lambda X: a * lf(X) + dis(X)                 # noqa: E731
        nl, nh = {1: (40, 20), 2: (70, 30)}[d]
        Xl, Xh = lhs(rng, sp, nl), lhs(rng, sp, nh)
        yl, yh = lf(Xl), hf(Xh)
        sd = float(10**rng.uniform(-1.5, 0)) * float(yh.std())
        yl = yl + sd * rng.normal(size=yl.shape)
        yh = yh + sd * rng.normal(size=yh.shape)
        m = dict(HK=HK, SK=SK, CK=CK)[spec["cls"]](
            sp.copy(), optimizer_restart=2,
            noise_prior=None if spec["est"] else sd)
        m.train([Xh, Xl], [yh, yl])
        Q = uniform(rng, sp, 200)
        t, lo = hf(Q), lf(Q)
        a = calibrated(mon, m, Q, t + sd * rng.normal(size=t.shape),
                       "noisy two-fidelity")
        e = rmse(a, t)
        el = rmse(m.predict_lf(Q.copy()), lo)
        mon.event("noisy two-fidelity fits")
        mon.event("noisy two-fidelity averaged out", int(e < sd))
        mon.event("noisy two-fidelity low averaged out", int(el < sd))
        mon.state(kind, spec["cls"], d, spec["est"])
        mon.sample = dict(kind=kind, cls=spec["cls"], d=d, est=spec["est"],
                          error=e / sd)
        return
    # noise: the fit averages it out, the estimate finds it
    d = int(rng.integers(1, 3))
    sp = space(rng, d).astype(float)
    f = Smooth(rng, sp)
    X = lhs(rng, sp, 40 if d == 1 else 60)
    y = f(X)
    sd = float(10**rng.uniform(-1.5, .3)) * float(y.std())
    y = y + sd * rng.normal(size=y.shape)
    m = GP(sp.copy(), optimizer_restart=4,
           noise_prior=None if spec["est"] else sd)
    m.train(X, y)
    Q = uniform(rng, sp, 200)
    t = f(Q)
    obs = t + sd * rng.normal(size=t.shape)
    a = calibrated(mon, m, Q, obs, "noisy")
    tag = "noise estimated" if spec["est"] else "noise known"
    mon.event("noisy fits")
    mon.event(tag + " fits")
    mon.event(tag + " averaged out", int(rmse(a, t) < sd))
    ratio = float(m.noise) / sd
    mon.event(tag + " found", int(.4 < ratio < 2.5))
    mon.state(kind, d, spec["est"], round(np.log10(sd / t.std()), 1))


# (numerator, denominator, least share); typical shares are given behind
SHARES = [
    ("fits no worse than a few times the spread", "noise-free fits",
     .98),                                                      # 1.00
    ("learn accurate", "learn fits", .9),                       # 1.00
    ("learn improved by data", "learn fits", .9),               # 1.00
    ("bench improved by data", "bench fits", .7),               # 1.00
    ("mf accurate", "mf fits", .85),                            # .98
    ("mf better than high-fidelity data alone", "mf fits", .8),     # .93
    ("mf low fidelity accurate", "mf fits", .9),                # 1.00
    ("mfbench low fidelity accurate", "mfbench fits", .7),      # 1.00
    ("noise known averaged out", "noise known fits", .65),      # .92
    ("noise estimated averaged out", "noise estimated fits", .65),  # 1.00
    ("noise known found", "noise known fits", 1.0),             # 1.00
    ("noise estimated found", "noise estimated fits", .8),      # 1.00
    ("single-fidelity within 3 std", "single-fidelity points", .88),  # .96
    ("single-fidelity within 10 std", "single-fidelity points", .97),  # .99
    ("two-fidelity within 3 std", "two-fidelity points", .6),   # .82
    ("two-fidelity within 10 std", "two-fidelity points", .85),  # .96
    ("noisy within 3 std", "noisy points", .97),                # .995
    ("noisy beyond half a std", "noisy points", .5),            # .62
    ("noisy two-fidelity averaged out", "noisy two-fidelity fits",
     .75),                                                      # .94
    ("noisy two-fidelity low averaged out", "noisy two-fidelity fits",
     .75),                                                      # .97
    ("noisy two-fidelity within 3 std", "noisy two-fidelity points",
     .93),                                                      # .99
    ("noisy two-fidelity within 10 std", "noisy two-fidelity points",
     .98)]                                                      # 1.00


def finish(c):
    for a, b, share in SHARES:
        if c[b] and c[a] < share * c[b]:
            yield f"{a}: {c[a]} of {c[b]}, expected a share of {share}"
