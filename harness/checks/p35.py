"""P35: data containers and function wrappers are transparent"""
import pickle

import numpy as np

from harness.gen import R
from mfpml.core.data import mfArray
from mfpml.problems.functions import FunctionWrapper

RULE = ("a case builds containers and wrappers around random data and "
        "functions, uses them in a random history and compares with the bare "
        "data and functions; non-trivial: each (levels, operation, arguments)")
MIN = {"containers read": 1500, "wrapped calls": 1500, "round trips": 150}


def poly(x, *c):
    return sum(a * np.asarray(x, float)**i for i, a in enumerate(c)) + 1


def pair(x, a, b):
    return np.asarray(x) * a - np.sum(b)


def cases(tier, rng):
    return [dict(kind="history") for _ in
            range(2000 if tier == "quick" else 4000)]


def levels(rng):
    k = int(rng.integers(1, 5))
    d = int(rng.integers(1, 4))
    return [rng.normal(size=(int(rng.integers(1, 20)), d))
            for _ in range(k)]


def run(spec, mon):
    rng = R(spec)
    live = []
    for step in range(8):
        op = str(rng.choice(["new", "replace", "later"]))
        if op == "replace" and live:
            a, _ = live[int(rng.integers(len(live)))]
            L = levels(rng)
            a(L)
            live = [(x, L if x is a else y) for x, y in live]
        else:
            L = levels(rng)
            a = mfArray() if op == "later" else mfArray(L)
            if op == "later":
                a(data=L)
            live.append((a, L))
        for a, L in live:       # every container holds its own data
            det = f"{op} {[x.shape for x in L]}"
            mon.check(a.n_levels == len(L), "number of levels", det)
            mon.check(list(a.size) == [len(x) for x in L],
                      "samples per level", f"{a.size} {det}")
            mon.same(a.hf, L[0], "element 0 is the high fidelity", det)
            for i in range(-len(L), len(L)):
                mon.same(a[i], L[i], "levels by index", f"{i} {det}")
            mon.event("containers read")
            mon.state(op, len(L))
    for _ in range(4):
        x = rng.normal(size=(int(rng.integers(1, 9)), 2))
        c = tuple(float(v) for v in rng.normal(size=int(rng.integers(0, 4))))
        forms = [(poly, c), (poly, list(c)), (pair, (2., rng.normal(size=3)))]
        if not c:
            forms.append((poly, None))
        calls = []
        for f, args in forms:
            w = FunctionWrapper(function=f, args=args)
            calls.append((w, f, args))
        calls.append((FunctionWrapper(poly), poly, ()))
        for w, f, args in calls + calls[::-1]:
            keep = x.copy()
            mon.same(w(x), f(x, *(args or ())), "a wrapped call is the call "
                     "with the extra arguments", f"{f.__name__} {args}")
            mon.same(x, keep, "the argument is not modified")
            mon.event("wrapped calls")
            mon.state(f.__name__, type(args).__name__, len(args or ()))
        w, f, args = calls[int(rng.integers(len(calls)))]
        mon.same(pickle.loads(pickle.dumps(w))(x), w(x),
                 "a wrapper survives pickling", f.__name__)
        mon.event("round trips")
