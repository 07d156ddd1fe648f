"""Closed forms of the acquisition functions, scalar and from math only"""
import math

import numpy as np

from harness.gen import unit


def Phi(z):
    return .5 * math.erfc(-z / math.sqrt(2))


def phi(z):
    return math.exp(-.5 * z * z) / math.sqrt(2 * math.pi) if abs(z) < 40 \
        else 0.0


def ei(fmin, mu, s):
    """expected improvement; its limit when s is zero"""
    d = fmin - mu
    if s <= 0:
        return max(d, 0.0)
    z = d / s
    if z < -25:
        return 0.0
    return d * Phi(z) + s * phi(z)


def pi(fmin, mu, s):
    d = fmin - mu
    if s <= 0:
        return float(d > 0) if d else .5
    return Phi(d / s)


def box(f, fmin, mu, s, tf, tm, ts, reg=0.0):
    """range of f when its arguments are known up to tf, tm and ts and the
    code may add up to reg to s where it divides"""
    v = []
    for m in (mu - tm, mu + tm):
        for g in (fmin - tf, fmin + tf):
            for q in {max(s - ts, 0.0), s, s + ts, s + ts + reg}:
                v.append(f(g, m, q))
    if abs(fmin - mu) <= tf + tm:
        v.append(f(mu, mu, s))
    return min(v), max(v)


def inside(mon, got, lo, hi, what, det, rel=1e-9, floor=0.0):
    """every got[i] in [lo[i], hi[i]] up to rounding"""
    got, lo, hi = (np.asarray(a, float).ravel() for a in (got, lo, hi))
    if not mon.check(got.shape == lo.shape, "one value per point",
                     f"{got.shape} for {lo.shape} points; {det}"):
        return False
    t = rel * np.maximum(np.abs(lo), np.abs(hi)) + floor + 1e-290
    ok = (got >= lo - t) & (got <= hi + t)
    i = int(np.argmin(ok))
    return mon.check(ok.all(), what, lambda: f"{got[i]!r} not in "
                     f"[{lo[i]!r}, {hi[i]!r}] (point {i}); {det}")


def ei_lim(fmin, mu, s, tm=0.0, ts=0.0, tf=0.0, reg=0.0):
    """limits of expected improvement at every point"""
    a = [box(ei, fmin, m, q, tf, t, u, reg) for m, q, t, u in zip(
        *map(np.ravel, np.broadcast_arrays(mu, s, tm, ts)))]
    return np.array(a).T


def pi_lim(fmin, mu, s, tm=0.0, ts=0.0, tf=0.0, reg=0.0):
    a = [box(pi, fmin, m, q, tf, t, u, reg) for m, q, t, u in zip(
        *map(np.ravel, np.broadcast_arrays(mu, s, tm, ts)))]
    return np.array(a).T


def density(X, S, theta, sp):
    """product over the samples of one minus their correlation with x"""
    U, V = unit(X, sp), unit(S, sp)
    out = []
    for u in U:
        p = 1.0
        for v in V:
            p *= -math.expm1(-float(np.sum(theta * (u - v)**2)))
        out.append(p)
    return np.array(out)


def mul(a, b):
    """product of two nonnegative ranges"""
    return a[0] * b[0], a[1] * b[1]
