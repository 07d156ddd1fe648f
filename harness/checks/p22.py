"""P22: PSO and DE report an honest, monotone best of what they evaluated"""
import contextlib
import io
import os
import pickle
import re

import numpy as np

from harness.ea import Run
from harness.gen import R, plt

RULE = ("a case runs an optimizer one to three times on random objectives "
        "(plateaus, ties, infinities, linear, multimodal) with the "
        "evaluations recorded, and replays the recorded log; non-trivial: "
        "each (algorithm, objective, early stop or not, how many "
        "generations, reuse)")
MIN = {"runs judged": 900, "early stops": 120, "reused optimizers": 200,
       "histories with improvement": 300, "plots judged": 20,
       "generations judged": 5000, "step files judged": 30,
       "printed generations judged": 150, "figures written": 8}


def cases(tier, rng):
    m = 8 if tier == "quick" else 25
    return [dict(kind=a) for a in ("PSO", "DE") for _ in range(450 * m)]


def judge(mon, r, first):
    X, Y = r.rec.flat()
    res, best, best_x = r.out
    det = str(r)
    hist = np.asarray(res["best_y_historical"], float)
    hx = np.asarray(res["best_x_historical"], float)
    G = len(r.rec.X) - 1            # generations that ran
    mon.check(hist.shape == (G + 1, 1) and hx.shape == (G + 1, r.d),
              "one history entry per generation that ran",
              f"{hist.shape} {hx.shape} for {G} generations; {det}")
    if len(hist) != G + 1:
        return
    low = Y.min()
    b = float(np.ravel(best)[0])
    mon.check(b == low, "the best is the smallest value evaluated",
              f"{b!r} != {low!r}; {det}")
    for v, what in ((res["best_y"], "best_y"), (hist[-1], "history")):
        mon.check(np.size(v) == 1 and float(np.ravel(v)[0]) == b,
                  "the ways of reporting agree", f"{what}={v} {b}; {det}")
    bx = np.ravel(np.asarray(best_x, float))
    mon.check(bx.shape == (r.d,) and np.array_equal(
        bx, np.ravel(res["best_x"])) and np.array_equal(bx, hx[-1]),
        "the ways of reporting the point agree", f"{bx} {hx[-1]}; {det}")
    at = (X == bx).all(1)
    mon.check(at.any() and (Y[at] == b).any(),
              "the best point was evaluated with the best value",
              f"{bx.tolist()} -> {Y[at]} vs {b}; {det}")
    # the history, generation by generation
    n = 0
    running = np.inf
    for g in range(G + 1):
        running = min(running, r.rec.Y[g].min())
        n += len(r.rec.X[g])
        h = float(hist[g, 0])
        mon.check(h == running, "the history is the running minimum",
                  f"generation {g}: {h!r} != {running!r}; {det}")
        at = (X[:n] == hx[g]).all(1)
        mon.check(at.any() and (Y[:n][at] == h).any(),
                  "each history point was evaluated with its value",
                  f"generation {g}; {det}")
        mon.event("generations judged")
    with np.errstate(all="ignore"):
        mon.check((hist[1:, 0] <= hist[:-1, 0]).all(),
                  "the history is non-increasing", det)
    if len(np.unique(hist)) > 1:
        mon.event("histories with improvement")
    mon.event("runs judged")
    if G < r.gen:
        mon.event("early stops")
    mon.state(r.algo, r.name, G < r.gen, min(G, 9), first, len(r.args))


def steps(mon, r, step, G):
    """the file of the last generation holds what the run returned"""
    res = r.out[0]
    for k in ("all_samples", "all_responses", "best_x_historical",
              "best_y_historical"):
        a, b = np.asarray(step[k], float), np.asarray(res[k], float)
        mon.check(len(a) >= G + 1 and np.array_equal(a[:G + 1], b),
                  "the step file holds the records of the run", f"{k}; {r}")
    mon.check(np.array_equal(step["design_space"], r.sp)
              and step["pop"] == r.pop and step["gen"] == r.gen,
              "the step file holds the settings", str(r))
    mon.event("step files judged")


def run(spec, mon):
    rng = R(spec)
    r = Run(rng, spec["kind"], big=True)
    kw = {k: True for k in ("print_info", "save_step_results")
          if rng.random() < .15}
    file, buf = "step_results.pickle", io.StringIO()
    with contextlib.redirect_stdout(buf):
        r.go(**kw)
    judge(mon, r, True)
    G = len(r.rec.X) - 1
    mon.check(os.path.exists(file) == ("save_step_results" in kw),
              "a file is written when asked for", str(r))
    if os.path.exists(file):
        with open(file, "rb") as f:
            step = pickle.load(f)
        os.remove(file)
        steps(mon, r, step, G)
    said = [int(v) for v in re.findall(r"iteration: ?(\d+)", buf.getvalue())]
    if "print_info" in kw:
        mon.check(said == list(range(G)), "each generation is announced once",
                  f"{said} for {G} generations; {r}")
        opt = [float(v) for v in re.findall(
            r"optimum:\s*\[\s*([-+.\deinf]+)\s*\]", buf.getvalue())]
        hist = np.ravel(r.out[0]["best_y_historical"])
        mon.check(len(opt) == G and np.allclose(
            opt, hist[:G], rtol=1e-5, atol=1e-7),
            "the announced optimum is the best so far",
            f"{opt[:4]} {hist[:4]}; {r}")
        mon.event("printed generations judged", G)
    else:
        mon.check(buf.getvalue() == "", "quiet unless asked to print", str(r))
    if rng.random() < .1 and np.isfinite(r.rec.flat()[1]).all():
        name = "history.png" if rng.random() < .5 else None
        if name:
            r.opt.plot_optimization_history(figure_name=name)
        else:
            r.opt.plot_optimization_history(save_figure=False)
        mon.check(sorted(f for f in os.listdir(".") if f.endswith(".png"))
                  == ([name] if name else []),
                  "the figure is written to the requested file only",
                  f"{os.listdir('.')} {name}; {r}")
        if name and os.path.exists(name):
            with open(name, "rb") as f:
                mon.check(f.read(8) == b"\x89PNG\r\n\x1a\n",
                          "the figure is an image", str(r))
            os.remove(name)
            mon.event("figures written")
        ax = plt.gcf().axes[0]
        line = np.asarray(ax.lines[0].get_ydata(), float).ravel()
        mon.close(line, np.ravel(r.out[0]["best_y_historical"]), 0,
                  "the plot shows the history", str(r))
        mon.close(np.asarray(ax.lines[0].get_xdata(), float).ravel(),
                  np.arange(len(line)), 0, "the plot counts generations",
                  str(r))
        plt.close("all")
        mon.event("plots judged")
    opt = r.opt
    for _ in range(int(rng.integers(0, 3))):
        held = r.out
        keep = [np.array(held[0][k], float).copy() for k in
                ("best_x", "best_y", "best_y_historical",
                 "best_x_historical", "all_samples", "all_responses")]
        r2 = Run(rng, spec["kind"])
        # the same object with its settings on another problem
        r2.pop, r2.gen, r2.kw = r.pop, r.gen, r.kw
        r2.go(opt)
        judge(mon, r2, False)
        mon.event("reused optimizers")
        now = [np.array(held[0][k], float) for k in
               ("best_x", "best_y", "best_y_historical",
                "best_x_historical", "all_samples", "all_responses")]
        mon.check(all(np.array_equal(a, b) for a, b in zip(keep, now)),
                  "a later run leaves earlier results alone", str(r2))
