"""Objectives and recorded runs of PSO and DE"""
import numpy as np

from mfpml.optimization.evolutionary_algorithms import DE, PSO

from harness.gen import space

OBJ = ["quadratic", "linear", "plateau", "constant", "inf", "ties", "table",
       "rastrigin", "minusinf", "negative", "huge", "coordinate"]
EDGES = dict(PSO=[("weight", 0.0), ("weight", 1.0), ("cognition_rate", 0.0),
                  ("social_rate", 0.0), ("max_velocity_rate", 1.0),
                  ("max_velocity_rate", 2.5), ("social_rate", 4.0)],
             DE=[("crossover_rate", 0.0), ("crossover_rate", 1.0),
                 ("step_size", 0.0), ("step_size", 1.0), ("step_size", 2.0)])
STRATEGIES = ["DE/rand/1/bin", "DE/best/1/bin"]


def objective(name, rng, sp):
    """row-wise objective on the unit-scaled variables"""
    d = len(sp)
    lo, w = sp[:, 0].astype(float), (sp[:, 1] - sp[:, 0]).astype(float)
    c = rng.random(d)
    a = rng.uniform(.5, 3, d)
    g = rng.normal(size=d)

    def f(X, *args):
        if name == "coordinate" and not args:
            return X[:, 0]              # a view of what it was given
        u = (np.asarray(X, float) - lo) / w
        q = ((u - c)**2 * a).sum(1)
        if name == "linear":
            v = u @ g
        elif name == "coordinate":
            v = np.asarray(X, float)[:, 0]
        elif name == "plateau":
            v = np.floor(4 * q)
        elif name == "constant":
            v = np.full(len(u), 2.5)
        elif name == "inf":
            v = np.where(u[:, 0] > .6, np.inf, q)
        elif name == "minusinf":
            v = np.where((np.abs(u - .5) < .2).all(1), -np.inf, q)
        elif name == "ties":
            v = np.round(np.abs(u[:, 0] - .5), 1)
        elif name == "table":
            v = np.sin(1e4 * (u @ (1 + np.arange(d)))) * 10
        elif name == "rastrigin":
            v = 5 * q - np.cos(20 * (u - c)).sum(1)
        elif name == "negative":
            v = q - 1e3
        elif name == "huge":
            v = 1e12 * q
        else:
            v = q
        return v + sum(args) if args else v
    return f


class Rec:
    """records every evaluation (copies) and the extra arguments; buffer:
    answers in one array that later calls overwrite"""

    def __init__(self, f, column=None, buffer=False):
        self.f, self.X, self.Y, self.args = f, [], [], []
        self.column, self.buffer, self.out = column, buffer, None

    def __call__(self, X, *args):
        Y = np.asarray(self.f(X, *args), float)
        self.X.append(np.array(X, float, copy=True))
        self.Y.append(Y.ravel().copy())
        self.args.append(args)
        if self.buffer:
            if self.out is None or self.out.size != Y.size:
                self.out = np.empty(Y.size)
            self.out[:] = Y.ravel()
            Y = self.out
        return Y.reshape(-1, 1) if self.column else Y.reshape(-1)

    def flat(self):
        return np.vstack(self.X), np.concatenate(self.Y)


class Run:
    """one random configuration and its recorded run"""

    def __init__(self, rng, algo=None, name=None, stop=True, d=None,
                 big=False):
        self.algo = algo or str(rng.choice(["PSO", "DE"]))
        self.d = d or int(rng.integers(1, 6))
        if big and not d and rng.random() < .02:
            self.d = int(rng.integers(6, 30))
        self.sp = space(rng, self.d)
        self.name = name or str(rng.choice(OBJ))
        self.pop = int(rng.choice([3, 4, 5, 8, 15, 30]))
        self.gen = int(rng.choice([1, 2, 3, 8, 20]))
        if big and rng.random() < .02:      # far larger than usual
            self.pop = int(rng.integers(70, 110))
            self.gen = int(rng.integers(1, 4))
        self.f = objective(self.name, rng, self.sp)
        self.args = tuple(rng.integers(-3, 4, int(rng.integers(0, 3)))
                          .astype(float).tolist())
        self.kw = {}
        if self.algo == "PSO":
            if rng.random() < .6:
                self.kw = dict(cognition_rate=float(rng.uniform(.3, 2)),
                               social_rate=float(rng.uniform(.3, 2)),
                               weight=float(rng.uniform(.2, 1)),
                               max_velocity_rate=float(rng.uniform(.02, .8)))
        else:
            self.kw["strategy"] = str(rng.choice(STRATEGIES))
            if rng.random() < .6:
                self.kw.update(step_size=float(rng.uniform(.2, 1)),
                               crossover_rate=float(rng.uniform(.05, .95)))
        self.edge = big and rng.random() < .12
        if self.edge:               # rates at the ends of their ranges
            k, v = EDGES[self.algo][int(rng.integers(len(EDGES[self.algo])))]
            self.kw[k] = v
        if big and rng.random() < .015:
            self.gen = int(rng.integers(90, 260))
            self.pop = min(self.pop, 8)
        self.stop = None
        if stop and rng.random() < .5:
            # a threshold that some generation is likely to pass
            u = np.sort(self.f(self.sp[:, 0] + rng.random((300, self.d)) * (
                self.sp[:, 1] - self.sp[:, 0]), *self.args))
            self.stop = float(u[int(rng.integers(0, 60))])
            if not np.isfinite(self.stop):
                self.stop = 0.0
        self.column = rng.random() < .5
        self.buffer = rng.random() < .2
        self.seed = int(rng.integers(2**31))

    def make(self):
        return (PSO if self.algo == "PSO" else DE)(
            num_pop=self.pop, num_gen=self.gen, **self.kw)

    def go(self, opt=None, seed=None, f=None, **kw):
        self.opt = opt = self.make() if opt is None else opt
        rec = Rec(f or self.f, self.column, self.buffer)
        np.random.seed(self.seed if seed is None else seed)
        self.sp_in = self.sp.copy()
        if self.stop is not None:
            kw["stopping_error"] = self.stop
        if self.args:
            kw["args"] = self.args
        self.out = opt.run_optimizer(rec, num_dim=self.d,
                                     design_space=self.sp_in, **kw)
        self.rec = rec
        # one entry per generation, however the points were batched
        X, Y = rec.flat()
        self.odd = len(X) % self.pop != 0 or len(X) < self.pop
        if not self.odd:
            rec.X = list(X.reshape(-1, self.pop, self.d))
            rec.Y = list(Y.reshape(-1, self.pop))
        return rec, self.out

    def __str__(self):
        return (f"{self.algo} {self.name} d={self.d} pop={self.pop} "
                f"gen={self.gen} stop={self.stop} {self.kw} "
                f"args={self.args}")
