"""Runner of the checks: workload -> real code -> monitor -> verdict.

A check module (harness/checks/pNN.py) provides

    RULE    text: how cases are made and what makes one non-trivial
    cases(tier, rng)   list of JSON-able case specs; every spec has "seed"
    run(spec, mon)     drives the real code and reports to the monitor
    MIN     dict: monitor counter -> least count for a conclusive run

Exit 0: held on everything explored; 1 with a VIOLATION line: violated;
2: inconclusive (a deciding monitor was not reached, a worker died).
"""
import collections
import contextlib
import hashlib
import importlib
import io
import json
import os
import resource
import signal
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

import numpy as np

ROOT = os.environ.get("VERIF_ROOT") or os.path.dirname(
    os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 240          # seconds of CPU per case; normal cases need < 10
MEM_LIMIT = 6 << 30


class CaseTimeout(Exception):
    pass


class _Reject(Exception):
    """the case turned out to be outside the property's domain"""


class Monitor:
    """Collects what one case showed."""

    def __init__(self):
        self.counts = collections.Counter()
        self.distinct = set()
        self.violations = []
        self.known_hits = []
        self.sample = None
        self._seen = collections.Counter()

    def event(self, name, n=1):
        self.counts[name] += n

    def state(self, *key):
        """a distinct situation that the monitor has judged"""
        h = hashlib.sha1(repr(key).encode()).hexdigest()[:12]
        self.distinct.add(h)

    def check(self, cond, what, detail="", known=None):
        self.counts["checked: " + what] += 1
        ok = bool(cond)
        if not ok:
            if callable(detail):
                detail = detail()
            if known is not None:
                self.known_hits.append((known, f"{what}: {detail}"))
            else:
                self._seen[what] += 1
                if self._seen[what] <= 3:
                    self.violations.append(f"{what}: {detail}"[:1500])
        return ok

    def close(self, a, b, tol, what, detail="", known=None):
        """elementwise |a - b| <= tol (tol may be an array), same shape"""
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            return self.check(False, what,
                              f"shape {a.shape} != {b.shape}; {detail}", known)
        with np.errstate(all="ignore"):
            ok = np.abs(a - b) <= tol
            ok |= (a == b)
        if not ok.all():
            i = np.argwhere(~ok)[0] if a.ndim else ()
            i = tuple(int(k) for k in i)
            t = np.broadcast_to(np.asarray(tol, float), a.shape)[i]
            det = detail() if callable(detail) else detail
            return self.check(
                False, what, f"{a[i]!r} != {b[i]!r} (tol {t:.3g}) at {i}; "
                f"{det}", known)
        return self.check(True, what)

    def same(self, a, b, what, detail=""):
        a, b = np.asarray(a), np.asarray(b)
        ok = a.shape == b.shape and bool(
            np.array_equal(a, b, equal_nan=a.dtype.kind == "f"
                           and b.dtype.kind == "f"))
        return self.check(ok, what, (lambda: f"{_short(a)} != {_short(b)}; "
                                     f"{detail}"))

    def raises(self, exc, fn, what):
        try:
            fn()
        except exc:
            return self.check(True, what)
        except Exception as e:      # another exception than documented
            return self.check(False, what, f"raised {type(e).__name__}: {e}")
        return self.check(False, what, "was accepted")

    @staticmethod
    def reject(why=""):
        raise _Reject(why)


def _short(a):
    s = np.array2string(np.asarray(a), threshold=12, precision=17)
    return s[:400]


def _on_cpu(signum, frame):
    raise CaseTimeout()


def _repo_frame(tb):
    out = None
    for f in traceback.extract_tb(tb):
        if "/mfpml/" in f.filename:
            out = f"{os.path.basename(f.filename)}:{f.name}"
    return out


def _init_worker(pid):
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    d = tempfile.mkdtemp(dir=os.getcwd())
    os.chdir(d)
    signal.signal(signal.SIGVTALRM, _on_cpu)


def run_case(pid, spec):
    mod = importlib.import_module(f"harness.checks.{pid.lower()}")
    mon = Monitor()
    t0 = time.time()
    np.random.seed(spec.get("seed", 0) % (2**32))
    buf = io.StringIO()
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        with contextlib.redirect_stdout(buf), np.errstate(all="ignore"):
            mod.run(spec, mon)
    except _Reject:
        mon.counts["cases outside the domain"] += 1
    except CaseTimeout:
        mon.violations.append(
            f"no termination: case used more than {CPU_LIMIT} s of CPU")
    except Exception as e:
        where = _repo_frame(e.__traceback__)
        tb = traceback.format_exc(limit=-4)
        mon.violations.append(
            f"exception {type(e).__name__}: {e} "
            f"[{where or 'while judging the result'}]\n{tb}"[:2500])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return dict(spec=spec, counts=dict(mon.counts), distinct=mon.distinct,
                violations=mon.violations, known=mon.known_hits,
                sample=mon.sample, t=time.time() - t0)


def load_known(pid):
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        k = json.load(f)
    return {e["key"]: e for e in k["findings"] if e["property"] == pid}


def jdump(o):
    return json.dumps(o, default=lambda x: x.tolist()
                      if hasattr(x, "tolist") else str(x))


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    replay = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from . import gen    # noqa: F401  imports mfpml once, before forking
    mod = importlib.import_module(f"harness.checks.{pid.lower()}")
    known = load_known(pid)
    t0 = time.time()
    if replay:
        with open(replay) as f:
            rec = json.load(f)
        specs = [rec.get("spec")]
        if "aggregate" in rec:      # judged over a whole run: run it again
            replay, tier, seed = None, rec["tier"], rec["seed"]
    if not replay:
        rng = np.random.default_rng([seed, int(pid[1:])])
        specs = mod.cases(tier, rng)
        for i, s in enumerate(specs):
            s.setdefault("seed", int(rng.integers(1, 2**31)))
            s["id"] = i
    deadline = 600 if tier == "quick" else 800
    counts, distinct = collections.Counter(), set()
    bad, khits, samples, times = [], collections.OrderedDict(), [], []
    done = skipped = 0
    inconclusive = []
    nproc = min(os.cpu_count() or 4, 8)
    ex = ProcessPoolExecutor(nproc, initializer=_init_worker,
                             initargs=(pid,))
    try:
        todo = list(specs)
        if not replay:          # a deadline cuts no kind off
            todo = [specs[i] for i in np.random.default_rng(
                [seed, int(pid[1:]), 7]).permutation(len(specs))]
        futs = {ex.submit(run_case, pid, s): s for s in todo}
        for fu in as_completed(futs):
            if fu.cancelled():
                skipped += 1
                continue
            r = fu.result()
            done += 1
            times.append((r["t"], r["spec"].get("kind")))
            counts.update(r["counts"])
            distinct |= r["distinct"]
            viol = list(r["violations"])
            for key, msg in r["known"]:
                if key in known:
                    khits.setdefault(key, msg)
                else:
                    viol.append(msg)
            if viol:
                bad.append((r["spec"], viol))
            if r["sample"] is not None and len(samples) < 4:
                samples.append(r["sample"])
            if len(bad) >= 5 or time.time() - t0 > deadline:
                for g in futs:
                    g.cancel()
    except BrokenProcessPool:
        inconclusive.append("a worker process died")
    ex.shutdown(wait=True, cancel_futures=True)
    if time.time() - t0 > deadline:
        inconclusive_time = True
    else:
        inconclusive_time = False
    if not replay and not bad:
        for what, n in getattr(mod, "MIN", {}).items():
            if counts[what] < n:
                inconclusive.append(
                    f"monitor '{what}' saw {counts[what]} < {n} events")
    aggregate = []
    if not replay and not bad and hasattr(mod, "finish"):
        aggregate = list(mod.finish(counts))
    for s in specs[:2]:
        if len(samples) < 2:
            samples.append({k: v for k, v in s.items()})
    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=done, distinct_nontrivial=len(distinct),
            rule=mod.RULE,
            samples=json.loads(jdump(samples)),
            events={k: v for k, v in sorted(counts.items())},
            cases_planned=len(specs), cases_not_run=len(specs) - done,
            stopped_by_deadline=inconclusive_time,
            known_findings_observed=list(khits)),
        assumptions=["observed executions only",
                     "numpy/scipy and the reference oracle are right"],
        wall_s=round(time.time() - t0, 2),
        violations=sum(len(v) for _, v in bad) + len(aggregate))
    edir = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(edir, "replay"), exist_ok=True)
    if not replay:
        tmp = os.path.join(edir, f".{pid}.json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(edir, f"{pid}.json"))
    for key, msg in khits.items():
        print(f"KNOWN-FINDING: property={pid} {known[key]['what']} "
              f"[{key}] e.g. {msg[:200]}")
    print(f"{pid} {tier} seed={seed}: {done}/{len(specs)} cases, "
          f"{len(distinct)} distinct situations, "
          f"{sum(v for k, v in counts.items() if k.startswith('checked'))} "
          f"oracle decisions, {time.time() - t0:.1f} s")
    if os.environ.get("VERIF_VERBOSE"):
        for k, v in sorted(counts.items()):
            print("   ", v, k)
        print("    slowest:", [(round(t, 1), k)
                               for t, k in sorted(times, key=str)[-3:]],
              "cpu", round(sum(t for t, _ in times), 1),
              sorted(times, key=lambda z: z[0])[-3:])
    if bad:
        for n, (spec, viol) in enumerate(bad[:5]):
            path = os.path.join(edir, "replay", f"{pid}-{n}.json")
            if not replay:
                with open(path, "w") as f:
                    f.write(jdump(dict(property=pid, spec=spec,
                                       violations=viol)))
            else:
                path = replay
            for v in viol[:3]:
                print("  ", v.replace("\n", "\n     "))
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if aggregate:
        path = os.path.join(edir, "replay", f"{pid}-aggregate.json")
        with open(path, "w") as f:
            f.write(jdump(dict(property=pid, aggregate=aggregate, tier=tier,
                               seed=seed)))
        for v in aggregate:
            print("  ", v)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if inconclusive:
        for m in inconclusive:
            print("INCONCLUSIVE:", m)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
