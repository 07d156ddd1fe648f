"""The benchmark problems: factories and reference formulas (longdouble)."""
import numpy as np

from mfpml.problems import mf_functions as M
from mfpml.problems import sf_cons_functions as C
from mfpml.problems import sf_functions as S

LD = np.longdouble
PI = LD("3.14159265358979323846264338327950288")

# name -> (class, kind); the parametric ones take num_dim
SF = ["Forrester", "Branin", "GoldPrice", "Sixhump", "Sasena", "Hartman3",
      "Hartman6", "AckleyN2"]
PAR = ["Thevenot", "Ackley"]
CONS = ["Branin_1", "Branin_2"]
MF = ["Forrester_1a", "Forrester_1b", "Forrester_1c", "mf_Hartman3",
      "mf_Sixhump", "mf_Hartman6", "mf_Discontinuous",
      "ContinuousNonlinearCorrelation1D", "PhaseShiftedOscillations",
      "mf_Bohachevsky", "mf_Booth", "mf_Borehole", "mf_CurrinExp",
      "mf_Himmelblau", "mf_Park91A", "mf_Park91B"]
MF_COST = ["Forrester_1a", "Forrester_1b", "Forrester_1c", "mf_Hartman3",
           "mf_Sixhump", "mf_Hartman6"]
ALL = SF + PAR + CONS + MF
DIM = dict(Forrester=1, Branin=2, GoldPrice=2, Sixhump=2, Sasena=2,
           Hartman3=3, Hartman6=6, AckleyN2=2, Branin_1=2, Branin_2=2,
           Forrester_1a=1, Forrester_1b=1, Forrester_1c=1, mf_Hartman3=3,
           mf_Sixhump=2, mf_Hartman6=6, mf_Discontinuous=1,
           ContinuousNonlinearCorrelation1D=1, PhaseShiftedOscillations=1,
           mf_Bohachevsky=2, mf_Booth=2, mf_Borehole=8, mf_CurrinExp=2,
           mf_Himmelblau=2, mf_Park91A=4, mf_Park91B=4)
DOMAIN = dict(
    Forrester=[[0, 1]], Branin=[[-5, 10], [0, 15]],
    GoldPrice=[[-2, 2]] * 2, Sixhump=[[-3, 3], [-2, 2]],
    Sasena=[[0, 5]] * 2, Hartman3=[[0, 1]] * 3, Hartman6=[[0, 1]] * 6,
    AckleyN2=[[-32, 32]] * 2, Branin_1=[[0, 1]] * 2, Branin_2=[[0, 1]] * 2,
    Forrester_1a=[[0, 1]], Forrester_1b=[[0, 1]], Forrester_1c=[[0, 1]],
    mf_Hartman3=[[0, 1]] * 3, mf_Sixhump=[[-2, 2]] * 2,
    mf_Hartman6=[[0, 1]] * 6, mf_Discontinuous=[[0, 1]],
    ContinuousNonlinearCorrelation1D=[[0, 1]],
    PhaseShiftedOscillations=[[0, 1]], mf_Bohachevsky=[[-5, 5]] * 2,
    mf_Booth=[[-10, 10]] * 2,
    mf_Borehole=[[.05, .15], [100, 50000], [63070, 115600], [990, 1110],
                 [63.1, 116], [700, 820], [1120, 1680], [9855, 12045]],
    mf_CurrinExp=[[0, 1]] * 2, mf_Himmelblau=[[-4, 4]] * 2,
    mf_Park91A=[[0, 1]] * 4, mf_Park91B=[[0, 1]] * 4)


def cls(name):
    for m in (S, C, M):
        if hasattr(m, name):
            return getattr(m, name)
    raise KeyError(name)


def make(name, rng=None, d=None, default=False, big=False):
    """-> (instance, number of variables, parameters)"""
    if big and not d and rng.random() < .04:    # very many variables
        d = int(rng.integers(16, 130))
    if name == "Thevenot":
        d = d or int(rng.integers(1, 16))
        if default or rng is None or rng.random() < .4:
            return cls(name)(num_dim=d), d, dict(m=5.0, beta=15)
        kw = dict(m=float(rng.choice([1, 2, 3, 5, 7])),
                  beta=float(rng.uniform(3, 30)))
        return cls(name)(num_dim=d, **kw), d, kw
    if name == "Ackley":
        d = d or int(rng.integers(1, 31))
        if default or rng is None or rng.random() < .4:
            return cls(name)(num_dim=d), d, dict(a=20., b=.2, c=2 * np.pi)
        kw = dict(a=float(rng.uniform(1, 40)), b=float(rng.uniform(.05, .6)),
                  c=float(rng.uniform(.5, 9)))
        return cls(name)(num_dim=d, **kw), d, kw
    return cls(name)(), DIM[name], {}


def fidelities(name):
    """evaluation methods of a problem"""
    if name in MF:
        return ["hf", "lf"]
    return ["f", "f_cons"] if name in CONS else ["f"]


def domain(name, d=None):
    """published domain, independent of the code"""
    if name == "Thevenot":
        return np.tile([-2 * np.pi, 2 * np.pi], (d, 1))
    if name == "Ackley":
        return np.tile([-32.0, 32.0], (d, 1))
    return np.array(DOMAIN[name], float)


# ------------------------------------------------------ published formulas
def forrester(x):
    return (6 * x - 2)**2 * np.sin(12 * x - 4)


A3 = np.array([[3, 10, 30], [.1, 10, 35]] * 2, LD)
P3 = np.array([["0.3689", "0.1170", "0.2673"], ["0.4699", "0.4387", "0.7470"],
               ["0.1091", "0.8732", "0.5547"],
               ["0.03815", "0.5743", "0.8828"]]).astype(LD)
A6 = np.array([["10", "3", "17", "3.5", "1.7", "8"],
               ["0.05", "10", "17", "0.1", "8", "14"],
               ["3", "3.5", "1.7", "10", "17", "8"],
               ["17", "8", "0.05", "10", "0.1", "14"]]).astype(LD)
P6 = np.array([[1312, 1696, 5569, 124, 8283, 5886],
               [2329, 4135, 8307, 3736, 1004, 9991],
               [2348, 1451, 3522, 2883, 3047, 6650],
               [4047, 8828, 8732, 5743, 1091, 381]]).astype(LD) / 10000


def hart(x, a, p, c, ell=1):
    s = 0
    for i in range(4):
        s = s + LD(str(c[i])) * np.exp(-np.sum(a[i] * (x * ell - p[i])**2, 1))
    return s


def branin(x1, x2):
    return ((x2 - LD("5.1") / (4 * PI**2) * x1**2 + 5 / PI * x1 - 6)**2
            + 10 * (1 - 1 / (8 * PI)) * np.cos(x1) + 10)


def camel(x, y):
    return 4 * x**2 - LD("2.1") * x**4 + x**6 / 3 + x * y - 4 * y**2 \
        + 4 * y**4


def gold(x, y):
    a = 1 + (x + y + 1)**2 * (19 - 14 * x + 3 * x**2 - 14 * y + 6 * x * y
                              + 3 * y**2)
    b = 30 + (2 * x - 3 * y)**2 * (18 - 32 * x + 12 * x**2 + 48 * y
                                   - 36 * x * y + 27 * y**2)
    return a * b


def currin(x1, x2):
    x2 = np.maximum(x2, LD("1e-30"))
    f = 1 - np.exp(-1 / (2 * x2))
    return f * (2300 * x1**3 + 1900 * x1**2 + 2092 * x1 + 60) / (
        100 * x1**3 + 500 * x1**2 + 4 * x1 + 20)


def park_a(x):
    x1, x2, x3, x4 = x.T
    with np.errstate(all="ignore"):
        t = np.where(x1 > 0, x1 / 2 * (np.sqrt(
            1 + (x2 + x3**2) * x4 / np.where(x1 > 0, x1, 1)**2) - 1),
            np.sqrt((x2 + x3**2) * x4) / 2)
        # tiny x1: the quotient overflows or cancels, use the limit form
        t = np.where(x1 < 1e-3, (np.sqrt(x1**2 + (x2 + x3**2) * x4) - x1) / 2,
                     t)
    return t + (x1 + 3 * x4) * np.exp(1 + np.sin(x3))


def park_b(x):
    x1, x2, x3, x4 = x.T
    return LD(2) / 3 * np.exp(x1 + x2) - x4 * np.sin(x3) + x3


def borehole(x, a, b):
    rw, r, Tu, Hu, Tl, Hl, L, Kw = x.T
    q = np.log(r / rw)
    return a * Tu * (Hu - Hl) / (q * (b + 2 * L * Tu / (q * rw**2 * Kw)
                                      + Tu / Tl))


def disc_lf(x):
    v = LD("0.5") * forrester(x) + 10 * (x - LD("0.5")) - 5
    return np.where(x <= 0.5, v, v + 3)


def disc_hf(x):
    v = 2 * disc_lf(x) - 20 * x + 20
    return np.where(x <= 0.5, v, v + 4)


def formula(name, fid, X, par=None):
    """reference values (n,), in extended precision"""
    x = np.asarray(X, float).astype(LD)
    c = [x[:, k] for k in range(x.shape[1])]
    p = par or {}
    if name == "Forrester" or (name.startswith("Forrester_") and
                               fid == "hf"):
        return forrester(c[0])
    if name == "Forrester_1a":
        return forrester(c[0]) - 5
    if name == "Forrester_1b":
        return LD("0.5") * forrester(c[0]) + 10 * (c[0] - LD("0.5")) - 5
    if name == "Forrester_1c":
        return forrester(c[0] + LD("0.2"))
    if name == "Branin":
        return branin(*c)
    if name in CONS:
        if fid == "f":
            return branin(15 * c[0] - 5, 15 * c[1]) + 5 * c[0]
        if name == "Branin_1":
            return LD("0.2") - c[0] * c[1]
        u, v = 2 * c[0] - 1, 2 * c[1] - 1
        return 6 - (camel(u, v) + 3 * np.sin(6 * (1 - u))
                    + 3 * np.sin(6 * (1 - v)))
    if name == "GoldPrice":
        return gold(*c)
    if name == "Sixhump" or (name == "mf_Sixhump" and fid == "hf"):
        return camel(*c)
    if name == "mf_Sixhump":
        s = LD("0.7")
        return camel(s * c[0], s * c[1]) - c[0] * c[1] - 15
    if name == "Sasena":
        a, b = c
        return (2 + LD("0.01") * (b - a**2)**2 + (1 - a)**2 + 2 * (2 - b)**2
                + 7 * np.sin(a / 2) * np.sin(LD("0.7") * a * b))
    if name == "Hartman3" or (name == "mf_Hartman3" and fid == "hf"):
        return -hart(x, A3, P3, ["1", "1.2", "3", "3.2"])
    if name == "mf_Hartman3":
        k = [LD(s) for s in ("0.585 -0.324 -0.379 -0.431 -0.208 0.326 0.193 "
                             "0.225 0.263 0.274").split()]
        a, b, e = c
        return (k[0] + k[1] * a + k[2] * b + k[3] * e + k[4] * a * b
                + k[5] * a * e + k[6] * b * e + k[7] * a**2 + k[8] * b**2
                + k[9] * e**2)
    if name == "Hartman6" or (name == "mf_Hartman6" and fid == "hf"):
        return -np.log(hart(x, A6, P6, ["1", "1.2", "3", "3.2"]))
    if name == "mf_Hartman6":
        ell = np.array("0.75 1 0.8 1.3 0.7 1.1".split()).astype(LD)
        return -np.log(hart(x, A6, P6, ["1.1", "0.8", "2.5", "3"], ell))
    if name == "Thevenot":
        return (np.exp(-np.sum((x / LD(p["beta"]))**(2 * p["m"]), 1))
                - 2 * np.exp(-np.prod(x**2, 1)) * np.prod(np.cos(x)**2, 1))
    if name == "Ackley":
        a, b, cc = (LD(p[k]) for k in "abc")
        return (-a * np.exp(-b * np.sqrt(np.mean(x**2, 1)))
                - np.exp(np.mean(np.cos(cc * x), 1)) + a + np.exp(LD(1)))
    if name == "AckleyN2":
        return -200 * np.exp(-LD("0.2") * np.sqrt(c[0]**2 + c[1]**2))
    if name == "mf_Discontinuous":
        return disc_hf(c[0]) if fid == "hf" else disc_lf(c[0])
    if name == "ContinuousNonlinearCorrelation1D":
        s = np.sin(8 * PI * c[0])
        return s**2 * (c[0] - np.sqrt(LD(2))) if fid == "hf" else s
    if name == "PhaseShiftedOscillations":
        if fid == "lf":
            return np.sin(8 * PI * c[0])
        return c[0]**2 + np.sin(8 * PI * c[0] + PI / 10)**2
    if name == "mf_Bohachevsky":
        def f(u, v):
            return (u**2 + 2 * v**2 - LD("0.3") * np.cos(3 * PI * u)
                    - LD("0.4") * np.cos(4 * PI * v) + LD("0.7"))
        if fid == "hf":
            return f(*c)
        return f(LD("0.7") * c[0], c[1]) + c[0] * c[1] - 12
    if name == "mf_Booth":
        def f(u, v):
            return (u + 2 * v - 7)**2 + (2 * u + v - 5)**2
        if fid == "hf":
            return f(*c)
        return (f(LD("0.4") * c[0], c[1]) + LD("1.7") * c[0] * c[1] - c[0]
                + 2 * c[1])
    if name == "mf_Borehole":
        return borehole(x, 2 * PI, 1) if fid == "hf" else borehole(
            x, LD(5), LD("1.5"))
    if name == "mf_CurrinExp":
        if fid == "hf":
            return currin(*c)
        h = LD("0.05")
        return (currin(c[0] + h, c[1] + h) + currin(c[0] + h, c[1] - h)
                + currin(c[0] - h, c[1] + h)
                + currin(c[0] - h, c[1] - h)) / 4
    if name == "mf_Himmelblau":
        def f(u, v):
            return (u**2 + v - 11)**2 + (v**2 + u - 7)**2
        if fid == "hf":
            return f(*c)
        return (f(LD("0.5") * c[0], LD("0.8") * c[1]) + c[1]**3
                - (c[0] + 1)**2)
    if name == "mf_Park91A":
        if fid == "hf":
            return park_a(x)
        return ((1 + np.sin(c[0]) / 10) * park_a(x) - 2 * c[0] + c[1]**2
                + c[2]**2 + LD("0.5"))
    if name == "mf_Park91B":
        return park_b(x) if fid == "hf" else LD("1.2") * park_b(x) - 1
    raise KeyError((name, fid))


SCALE = dict(GoldPrice=1e3, mf_Himmelblau=1e2, mf_Booth=1e2, Branin=1e2,
             Branin_1=1e2, Branin_2=1e2, mf_Borehole=1e2, Sixhump=1e2,
             mf_Sixhump=1e2)


def tol(name, ref):
    """rounding allowance of a straightforward double evaluation"""
    return 1e-11 * (np.abs(np.asarray(ref, float)) + SCALE.get(name, 10.0))


def points(rng, dom, n):
    """random, boundary, corner, just-inside and rounded domain points"""
    dom = np.asarray(dom, float)
    d = len(dom)
    lo, hi = dom.T
    P = [lo + rng.random((n, d)) * (hi - lo)]
    E = lo + rng.random((n // 2 + 1, d)) * (hi - lo)
    k = rng.integers(d, size=len(E))
    E[np.arange(len(E)), k] = np.where(rng.random(len(E)) < .5, lo[k], hi[k])
    P += [E, np.where(rng.random((min(2**d, 12), d)) < .5, lo, hi)]
    N = np.where(rng.random((3, d)) < .5, np.nextafter(lo, hi),
                 np.nextafter(hi, lo))
    P += [N, lo[None] + 0.5 * (hi - lo)[None]]
    T = lo + (hi - lo) * 10.0 ** rng.uniform(-14, -1, (3, d))
    P.append(T)
    G = np.round(lo + rng.random((4, d)) * (hi - lo), 1)
    P.append(np.clip(G, lo, hi))
    return np.vstack(P)


def int_points(rng, dom, n):
    """integer points of the domain, None when it has none"""
    lo, hi = np.ceil(dom[:, 0] - 1e-12), np.floor(dom[:, 1] + 1e-12)
    if (hi < lo).any():
        return None
    P = rng.integers(lo.astype(int), hi.astype(int) + 1, (n, len(dom)))
    k = n // 3          # corners of the integer box
    P[:k] = np.where(rng.random((k, len(dom))) < .5, lo, hi).astype(int)
    return P
