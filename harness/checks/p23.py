"""P23: PSO and DE stay in bounds, in budget, and follow their update rules"""
import numpy as np

from harness.ea import Run
from harness.gen import R, plt  # noqa: F401
from mfpml.optimization.evolutionary_algorithms import DE

RULE = ("a case runs an optimizer on a random objective, space and setting "
        "with all evaluations recorded and replays the log against the "
        "update rules (PSO: velocity intervals; DE: existence of a mutant, "
        "greedy survivors); non-trivial: each (algorithm, strategy, default "
        "or random rates, early stop, dimension)")
MIN = {"runs judged": 700, "early stops": 120, "PSO moves determined": 20000,
       "PSO coordinates re-drawn": 300, "DE trials judged": 8000,
       "DE survivors judged": 8000, "refused strategies": 60,
       "runs with extra arguments": 300, "crossover rates judged": 25,
       "DE pairs known": 800, "DE bases known": 400,
       "DE members known in large populations": 300,
       "rates at the end of their range": 600, "long runs": 40}


def cases(tier, rng):
    m = 24 if tier == "quick" else 100
    return [dict(kind=a) for a in ("PSO", "DE") for _ in range(450 * m)]


def run(spec, mon):
    rng = R(spec)
    r = Run(rng, spec["kind"], big=True)
    r.go()
    sp = r.sp.astype(float)
    lo, hi = sp[:, 0], sp[:, 1]
    w = hi - lo
    det = str(r)
    mon.event("runs judged")
    if not mon.check(not r.odd, "population * (generations + 1) evaluations",
                     f"{sum(map(len, r.rec.X))} points; {det}"):
        return
    X, Y = np.array(r.rec.X), np.array(r.rec.Y)     # (G+1, pop, d)
    G = len(X) - 1
    mon.check(((X >= lo) & (X <= hi)).all(), "evaluated points are inside "
              "the design space", lambda:
              f"{X[((X < lo) | (X > hi)).any(-1)][:1].tolist()} {det}")
    mon.same(r.sp_in, r.sp, "the design space is not modified", det)
    mon.check(all(a == r.args for a in r.rec.args),
              "extra arguments are passed on every call",
              f"{set(r.rec.args)} {det}")
    mon.event("rates at the end of their range", int(r.edge))
    mon.event("long runs", int(r.gen > 80))
    if r.args:
        mon.event("runs with extra arguments")
    # ---- budget and stopping ---------------------------------------------
    run_min = np.minimum.accumulate(Y.min(1))
    want = r.gen
    if r.stop is not None:
        below = np.flatnonzero(run_min[1:] < r.stop)
        # generations after the stop are not in the log: replay decides
        if len(below):
            want = int(below[0]) + 1
    mon.check(G == want, "stops after the first generation below the "
              "threshold, else uses all", f"{G} generations, {want} expected "
              f"{run_min.tolist()} {det}")
    if G < r.gen:
        mon.event("early stops")
    res = r.out[0]
    S = np.asarray(res["all_samples"], float)
    T = np.asarray(res["all_responses"], float)
    if not mon.check(S.shape == X.shape and T.shape == Y.shape + (1,),
                     "records cover the generations that ran",
                     f"{S.shape} {T.shape} {X.shape} {det}"):
        return
    mon.check(res["pop"] == r.pop and res["gen"] == r.gen and np.array_equal(
        res["design_space"], r.sp), "settings are reported", det)
    mon.state(r.algo, r.kw.get("strategy"), len(r.kw) > 1, G < r.gen, r.d,
              r.pop)
    # initial population: anywhere in the box
    if r.pop * r.d >= 30:
        u = (X[0] - lo) / w
        mon.check(u.max() > .6 and u.min() < .4 and abs(u.mean() - .5) < .45,
                  "the initial population fills the box", det)
    (pso if r.algo == "PSO" else de)(r, mon, rng, X, Y, S, T[..., 0], lo, hi,
                                     w, det)


def pso(r, mon, rng, X, Y, S, T, lo, hi, w, det):
    mon.same(S, X, "recorded populations are the ones evaluated", det)
    mon.same(T, Y, "recorded responses are the ones evaluated", det)
    o = dict(cognition_rate=1.5, social_rate=1.5, weight=.8,
             max_velocity_rate=.2)
    o.update(r.kw)
    c1, c2, wt = o["cognition_rate"], o["social_rate"], o["weight"]
    vm = w * o["max_velocity_rate"]
    hx = np.asarray(r.out[0]["best_x_historical"], float)
    P, PY = X[0].copy(), Y[0].copy()
    sure = np.ones(len(P), bool)        # own best known (no ties so far)
    a = np.zeros_like(X[0])             # velocity is in [a, b]
    b = np.broadcast_to(vm, X[0].shape).copy()
    tol = 1e-9 * w + 1e-13 * np.maximum(np.abs(lo), np.abs(hi)) * 10
    n = bad = redrawn = 0
    first = ""
    for g in range(len(X) - 1):
        x = X[g]
        pull = c1 * (P - x) + c2 * (hx[g] - x)
        if not sure.all():              # any earlier point of the particle
            a[~sure], b[~sure] = -np.inf, np.inf
        A = np.clip(wt * a + pull, -vm, vm)
        B = np.clip(wt * b + pull, -vm, vm)
        y = X[g + 1]
        inside = (x + A > lo + tol) & (x + B < hi - tol)
        outside = (x + A > hi + tol) | (x + B < lo - tol)
        step = y - x
        ok = (step >= A - tol) & (step <= B + tol)
        n += int(inside.sum())
        redrawn += int(outside.sum())
        if (inside & ~ok).any():
            bad += int((inside & ~ok).sum())
            k = np.argwhere(inside & ~ok)[0]
            first = first or (f"generation {g + 1} particle {k[0]} coordinate "
                              f"{k[1]}: step {step[tuple(k)]} not in "
                              f"[{A[tuple(k)]}, {B[tuple(k)]}]")
        a = np.where(inside, np.maximum(A, np.minimum(step, B)), A)
        b = np.where(inside, a, B)
        a[inside], b[inside] = step[inside], step[inside]
        new = Y[g + 1]
        tie = (new == PY)
        sure[tie] = False
        better = new < PY
        P[better], PY[better] = y[better], new[better]
        sure[better] = True
    mon.check(bad == 0, "particles move by their clamped velocity",
              f"{first}; {det}")
    mon.event("PSO moves determined", n)
    mon.event("PSO coordinates re-drawn", redrawn)


def members(mon, i, oth, hit, best):
    """who was mixed into the trial of member i, when that is unambiguous"""
    n = len(oth)
    b, j, k = (v.ravel() for v in np.indices((1 if best else n, n, n)))
    same = np.flatnonzero(hit & (j == k))
    hit = np.flatnonzero(hit)
    N = n + 1
    if len(same):                       # no difference at all: the base
        mon.event("DE pairs known")
        mon.event("DE pairs twice the same")
    elif len(hit) == 1:
        mon.event("DE pairs known")
        who = [j[hit[0]], k[hit[0]]] + ([] if best else [b[hit[0]]])
        mon.event("DE members known", len(who))
        mon.event("DE members from the next half", sum(
            int((oth[m] - i) % N <= N // 2) for m in who))
        if N > 40:
            mon.event("DE members known in large populations", len(who))
            mon.event("DE members from the last third", sum(
                int(oth[m] >= 2 * N / 3) for m in who))
        if not best:
            mon.event("DE bases known")
            mon.event("DE bases also in the pair", int(
                b[hit[0]] in (j[hit[0]], k[hit[0]])))
            mon.event("DE bases allowed in the pair", 4 / N / (N - 1))
    mon.event("DE pairs allowed twice the same", 2 / N / (N - 1))


def finish(c):
    """base and pair are different members chosen all over the population
    (the parent's own index is replaced by the next one, which may repeat)"""
    for a, b, what in (
            ("DE pairs twice the same", "DE pairs allowed twice the same",
             "differences of a member with itself"),
            ("DE bases also in the pair", "DE bases allowed in the pair",
             "trials that use their base in the difference")):
        if c[a] > c[b] + 6 * np.sqrt(c[b]) + 3:
            yield f"{c[a]} {what}, {c[b]:.1f} are expected"
    n = c["DE members known"]
    k = c["DE members from the next half"]
    if abs(k - n / 2) > .12 * n + 4 * np.sqrt(n):
        yield f"members are not chosen all over the population: {k} of {n}"
    n = c["DE members known in large populations"]
    k = c["DE members from the last third"]
    if abs(k - n / 3) > .1 * n + 2.4 * np.sqrt(n):
        yield (f"members are not chosen all over large populations: {k} of "
               f"{n} from the last third")


def de(r, mon, rng, X, Y, S, T, lo, hi, w, det):
    F = r.kw.get("step_size", .5)
    CR = r.kw.get("crossover_rate", .5)
    best = r.kw["strategy"] == "DE/best/1/bin"
    pop, d = X.shape[1:]
    mon.same(S[0], X[0], "the first population is the one evaluated", det)
    mon.same(T[0], Y[0], "the first responses are the ones evaluated", det)
    hx = np.asarray(r.out[0]["best_x_historical"], float)
    tol = 1e-9 * w + 1e-13 * np.maximum(np.abs(lo), np.abs(hi))
    mixed = free = 0
    for g in range(len(X) - 1):
        x, y = S[g], T[g]
        u, v = X[g + 1], Y[g + 1]
        win = v < y
        mon.same(S[g + 1], np.where(win[:, None], u, x),
                 "only strictly better trials replace their parents",
                 f"generation {g + 1}; {det}")
        mon.same(T[g + 1], np.where(win, v, y),
                 "survivors keep their responses", f"generation {g + 1}; "
                 f"{det}")
        mon.event("DE survivors judged", pop)
        who = range(pop) if pop <= 8 else rng.choice(pop, 4, replace=False)
        if pop > 40:
            who = rng.choice(pop, 12 if best else 2 * (g == 0), replace=False)
            mon.event("large populations")
        # no two members share a coordinate: what comes from a mutant shows
        # (later mutants can repeat a coordinate that the parent got earlier)
        distinct = all(len(np.unique(c)) == pop for c in x.T)
        for i in who:
            mut = u[i] != x[i]
            if distinct and pop > 4 and mut.any():
                mixed += int(mut.sum())
                free += 1
            oth = np.delete(np.arange(pop), i)
            base = hx[g][None] if best else x[oth]
            D = (x[oth][:, None] - x[oth][None]).reshape(-1, d) * F
            V = (base[:, None] + D[None]).reshape(-1, d)
            fit = (np.abs(V - u[i]) <= tol) | (V < lo + tol) | (V > hi - tol)
            mon.check(fit[:, mut].all(1).any(), "a trial mixes its parent "
                      "and a mutant of other members", f"generation {g + 1} "
                      f"member {i}: {u[i].tolist()}; {det}")
            mon.check(mut.any() or g or best, "a trial takes at "
                      "least one coordinate of the mutant", det)
            mon.event("DE trials judged")
            if g == 0 and distinct and pop >= 8 and mut.any() and F:
                members(mon, i, oth, fit[:, mut].all(1) & (
                    np.abs(V - u[i]) <= tol)[:, mut].all(1), best)
    if d > 1 and free >= 60:
        n = free * (d - 1)
        k = mixed - free
        lim = 7 * np.sqrt(n * CR * (1 - CR)) + .03 * n + 3
        mon.check(abs(k - n * CR) <= lim, "coordinates are taken with the "
                  "crossover rate", f"{k} of {n}, rate {CR}; {det}")
        mon.event("crossover rates judged")
    if rng.random() < .3:
        bad = str(rng.choice(["DE/rand/2/bin", "best", "", "de/rand/1/bin",
                              "DE/rand/1/exp"]))
        mon.raises(ValueError, lambda: DE(
            num_pop=5, num_gen=2, strategy=bad).run_optimizer(
                r.f, num_dim=d, design_space=r.sp.copy(),
                args=r.args), "unknown strategies are refused")
        mon.event("refused strategies")
