"""P05: saved designs and plots show exactly the drawn samples"""
import os
import pickle
import re

import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np

from harness.gen import R, space
from mfpml.design_of_experiment.mf_samplers import (MFLatinHyperCube,
                                                    MFSobolSequence)
from mfpml.design_of_experiment.sf_samplers import (
    FixNumberSampler, LatinHyperCube, RandomSampler, SobolSequence)
from mfpml.visualization.samplers_visualization import (
    MFSamplerVisualization, SFSamplerVisualization)

RULE = ("a case draws a design, saves and reloads it, or plots it and reads "
        "the drawn points back from the figure handed to show/savefig; "
        "non-trivial: each (sampler, dimension, fidelities, save or show)")
MIN = {"files reloaded": 60, "figures read back": 60,
       "figures with several fidelities": 30, "image files": 6,
       "refusals": 40, "files replaced": 60}
SF = dict(lhs=LatinHyperCube, random=RandomSampler, sobol=SobolSequence)
MF = dict(lhs=MFLatinHyperCube, sobol=MFSobolSequence)


def cases(tier, rng):
    m = 6 if tier == "quick" else 12
    return ([dict(kind="save") for _ in range(16 * m)]
            + [dict(kind="plot_sf", d=d, img=i % 6 == 0)
               for i in range(8 * m) for d in (1, 2, 3)]
            + [dict(kind="plot_mf", d=d, img=i % 8 == 0)
               for i in range(14 * m) for d in (1, 2, 3)]
            + [dict(kind="refuse") for _ in range(8)])


class Figures:
    """collects what reaches show() and savefig()"""

    def __enter__(self):
        self.figs = []
        self.files = []
        self.show, self.save = plt.show, matplotlib.figure.Figure.savefig
        me = self

        def show(*a, **k):
            me.figs.append(read(plt.gcf()))

        def savefig(fig, name, *a, **k):
            me.figs.append(read(fig))
            me.files.append(name)
            k["dpi"] = 50
            return me.save(fig, name, *a, **k)
        plt.show = show
        matplotlib.figure.Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        plt.show = self.show
        matplotlib.figure.Figure.savefig = self.save
        if not self.figs and plt.get_fignums():
            self.figs.append(read(plt.gcf()))
        plt.close("all")


def read(fig):
    """[(label, (n, k) drawn points)] of all artists of a figure"""
    out = []
    for ax in fig.axes:
        for c in ax.collections:
            if hasattr(c, "_offsets3d"):
                P = np.stack([np.ma.getdata(np.ma.asarray(v))
                              for v in c._offsets3d], 1)
            else:
                P = np.ma.getdata(c.get_offsets())
            out.append((str(c.get_label()), np.array(P, float)))
        for ln in ax.lines:
            P = np.array(ln.get_data_3d() if hasattr(ln, "get_data_3d")
                         else ln.get_data(), float).T
            out.append((str(ln.get_label()), P))
    leg = [t.get_text() for ax in fig.axes if ax.get_legend()
           for t in ax.get_legend().get_texts()]
    return out, leg


def rows(A):
    return sorted(map(tuple, np.round(np.asarray(A, float), 300).tolist()))


def expect(S, d):
    return np.column_stack([S, np.zeros(len(S))]) if d == 1 else S


def run(spec, mon):
    rng = R(spec)
    k = spec["kind"]
    if k == "save":
        for _ in range(6):
            d = int(rng.choice([1, 2, 3, 6]))
            sp = space(rng, d).astype(float)
            if rng.random() < .5:
                nm = str(rng.choice(list(SF) + ["fixed"]))
                s = (FixNumberSampler if nm == "fixed" else SF[nm])(
                    design_space=sp)
                S = [s.get_samples(num_samples=int(rng.integers(1, 200)),
                                   seed=int(rng.integers(9999)))]
                default = "data"
            else:
                nm = "mf" + str(rng.choice(list(MF)))
                F = int(rng.integers(1, 5))
                s = MF[nm[2:]](design_space=sp, num_fidelity=F,
                               nested=bool(rng.random() < .5))
                S = s.get_samples(num_samples=sorted(
                    int(v) for v in rng.integers(1, 90, F)),
                    seed=int(rng.integers(9999)))
                default = "mf_data"
            keep = [np.array(a, copy=True) for a in S]
            if rng.random() < .4:
                s.save_data()
                f = default + ".pickle"
            else:
                nm2 = f"sub.{rng.integers(10**6)}/x y.v2"
                os.makedirs(os.path.dirname(nm2), exist_ok=True)
                s.save_data(file_name=nm2)
                f = nm2 + ".pickle"
            if not mon.check(os.path.isfile(f), "file is where it should be",
                             f):
                continue
            with open(f, "rb") as h:
                L = pickle.load(h)
            os.remove(f)
            L = L if nm.startswith("mf") else [L]
            mon.check(len(L) == len(keep), "file holds every fidelity", nm)
            for a, b in zip(L, keep):
                mon.same(a, b, "reloaded design is the drawn one", nm)
            for a, b in zip(S, keep):
                mon.same(a, b, "saving leaves the design unchanged", nm)
            mon.event("files reloaded")
            mon.state("save", nm, d)
            if rng.random() < .5:   # the file of the next design replaces it
                n = [len(a) for a in keep]
                g, later = f[:-len(".pickle")], []
                for _ in range(2):
                    later = s.get_samples(
                        num_samples=n if nm.startswith("mf") else n[0],
                        seed=int(rng.integers(9999)))
                    s.save_data(file_name=g)
                with open(f, "rb") as h:
                    L = pickle.load(h)
                    mon.check(not h.read(), "one design per file", nm)
                os.remove(f)
                for a, b in zip(*(v if nm.startswith("mf") else [v]
                                  for v in (L, later))):
                    mon.same(a, b, "saving again replaces the file", nm)
                mon.event("files replaced")
        return
    if k == "refuse":
        d = int(rng.integers(1, 4))
        sp = space(rng, d).astype(float)
        for c in SF.values():
            mon.raises(Exception, lambda: SFSamplerVisualization(
                c(design_space=sp)).plot_samples(),
                "a sampler without a design is refused")
        for c in MF.values():
            mon.raises(Exception, lambda: MFSamplerVisualization(
                c(design_space=sp, num_fidelity=2)).plot_samples(),
                "a sampler without a design is refused")
        sp = space(rng, int(rng.integers(4, 9))).astype(float)
        with Figures():
            for c in SF.values():
                s = c(design_space=sp)
                s.get_samples(num_samples=5, seed=1)
                mon.raises(Exception, lambda: SFSamplerVisualization(
                    s).plot_samples(), "more than 3 variables are refused")
            for c in MF.values():
                s = c(design_space=sp, num_fidelity=2)
                s.get_samples(num_samples=[3, 5], seed=1)
                mon.raises(Exception, lambda: MFSamplerVisualization(
                    s).plot_samples(), "more than 3 variables are refused")
        mon.event("refusals", 10)
        return
    d = spec["d"]
    sp = space(rng, d).astype(float)
    if k == "plot_sf":
        nm = str(rng.choice(list(SF)))
        s = SF[nm](design_space=sp)
        S = [s.get_samples(num_samples=int(rng.choice([1, 2, 9, 60])),
                           seed=int(rng.integers(9999)))]
        viz = SFSamplerVisualization(s)
        F = 1
    else:
        nm = str(rng.choice(list(MF)))
        F = int(rng.integers(1, 6))
        s = MF[nm](design_space=sp, num_fidelity=F,
                   nested=bool(rng.random() < .5))
        S = s.get_samples(num_samples=sorted(
            int(v) for v in rng.integers(1, 40, F)),
            seed=int(rng.integers(9999)))
        viz = MFSamplerVisualization(s)
    keep = [np.array(a, copy=True) for a in S]
    img = spec["img"]
    fn = f"fig{spec['seed']}.png"
    with Figures() as fig:
        if img:
            viz.plot_samples(save_figure=True, filename=fn)
        else:
            viz.plot_samples(save_figure=False)
    det = f"{nm} d={d} F={F} img={img}"
    if img:
        ok = os.path.isfile(fn) and open(fn, "rb").read(4) == b"\x89PNG"
        mon.check(ok, "figure is written to the requested file", det)
        mon.event("image files")
    if not mon.check(len(fig.figs) >= 1, "a figure is drawn", det):
        return
    groups, legend = fig.figs[-1]
    groups = [g for g in groups if len(g[1])]
    mon.check(len(groups) == F, "one group per fidelity",
              f"{len(groups)} {det}")
    mon.check(len(legend) == F and len(set(legend)) == F,
              "one label per fidelity", f"{legend} {det}")
    for i in range(F):
        if k == "plot_mf":
            g = [p for lab, p in groups if re.findall(r"\d+", lab)
                 == [str(i)]]
        else:
            g = [p for lab, p in groups]
        if mon.check(len(g) == 1, "the fidelity has its labelled group",
                     f"fidelity {i}: {[q[0] for q in groups]} {det}"):
            mon.check(rows(g[0]) == rows(expect(keep[i], d)),
                      "every sample is drawn once at its coordinates",
                      f"fidelity {i} {det}")
    for a, b in zip(S, keep):
        mon.same(a, b, "plotting leaves the design unchanged", det)
    kept = s.samples if k == "plot_sf" else s.data
    kept = [kept] if k == "plot_sf" else kept
    mon.check(len(kept) == F and all(np.array_equal(a, b) for a, b in zip(
        kept, keep)), "plotting leaves the sampler's design unchanged", det)
    mon.event("figures read back")
    if F > 1:
        mon.event("figures with several fidelities")
    mon.state(k, nm, d, F, img)
