"""Runs, statistics, minimisation and replay files, shared by all properties."""
import copy
import gc
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

import arrays
import boot
from world import Mismatch

PROPS = ["C%02d" % i for i in range(1, 14)]


def prop_module(pid):
    return importlib.import_module("props." + pid.lower())


def seed_rng(seed, pid, idx):
    return arrays.rng("vsim", int(seed), pid, int(idx))


def digest(*x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=7).digest(), "big")


class Stats:
    """What a batch of runs covered. Sets hold digests."""

    def __init__(self):
        self.c = Counter()
        self.sets = {}
        self.known = {}
        self.samples = []

    def add(self, name, n=1):
        self.c[name] += n

    def see(self, name, *x):
        self.sets.setdefault(name, set()).add(digest(*x))

    def mark(self, name, key):
        """A set of short readable strings."""
        self.sets.setdefault(name, set()).add(str(key))

    def known_hit(self, kid, text):
        k = self.known.setdefault(kid, [0, text])
        k[0] += 1

    def to_json(self):
        return {"c": dict(self.c), "sets": {k: sorted(v, key=str) for k, v in self.sets.items()},
                "known": self.known, "samples": self.samples[:3]}

    def merge(self, d):
        self.c.update(d["c"])
        for k, v in d["sets"].items():
            self.sets.setdefault(k, set()).update(v)
        for k, (n, t) in sorted(d["known"].items()):
            x = self.known.setdefault(k, [0, t])
            x[0] += n
        self.samples.extend(d["samples"])


class NoStats(Stats):
    def add(self, *a):
        pass

    see = mark = known_hit = add


class Timeout(BaseException):
    pass


_pristine = None


def reset_process():
    """Every run starts from the same process-wide settings."""
    import numpy as np

    lib = boot.load()
    np.seterr(all="ignore")
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    global _pristine
    if _pristine is None:
        _pristine = {k: getattr(lib.B, k) for k in ("epsilon", "default_dtype", "cholesky_retry_factor")}
    for k, v in _pristine.items():
        setattr(lib.B, k, v)
    cf = lib.B.control_flow
    cf._cache, cf._counter, cf.caching, cf.use_cache = None, -1, False, False
    lib.B.lazy_shapes.enabled = False
    np.random.seed(12345)
    sys.setrecursionlimit(1000)


def run_once(mod, prog, stats, limit=60):
    """Execute one program. Returns a `Mismatch` or `None`."""
    reset_process()
    gc.disable()
    try:
        with watchdog(limit):
            mod.execute(prog, stats)
    except Mismatch as e:
        return e
    except Timeout:
        return budgeted(mod, prog)
    finally:
        gc.enable()
    return None


class watchdog:
    """Real time only tells whether to look closer; see `budgeted`."""

    def __init__(self, s):
        self.s = s

    def _fire(self, *a):
        raise Timeout()

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self._fire)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class BudgetOver(BaseException):
    pass


def budgeted(mod, prog, budget=3_000_000):
    """The run took suspiciously long: count its steps instead of its seconds."""
    import monitor

    reset_process()
    n = [0]

    def cb(code, line):
        n[0] += 1
        if n[0] > budget:
            raise BudgetOver()

    with monitor.lines(cb):
        try:
            mod.execute(prog, NoStats())
        except Mismatch as e:
            return e
        except BudgetOver:
            return Mismatch("no-progress", f"a call did not finish within {budget} steps")
    # Slow, but it made progress, and nothing was wrong.
    return None


def worker(pid, seed, start, stride, count, out, thorough=False, maxviol=1):
    """Execute runs `start, start+stride, ...`; write statistics and violations to `out`."""
    mod = prop_module(pid)
    if hasattr(mod, "prepare"):
        mod.prepare()
    boot.load(jax=getattr(mod, "JAX", False))
    stats = Stats()
    viols = []
    t0 = time.monotonic()
    done = 0
    deadline = float(os.environ.get("VSIM_DEADLINE") or "inf")
    for k in range(count):
        if time.monotonic() > deadline:
            # A slow machine: report what was explored.
            break
        idx = start + k * stride
        prog = mod.generate(seed_rng(seed, pid, idx), idx, thorough)
        if k < 2 and start < 2:
            stats.samples.append(sample_text(mod, prog, idx))
        e = run_once(mod, prog, stats)
        stats.add("runs")
        done += 1
        if k % 50 == 49:
            gc.collect()
        if e is not None:
            viols.append({"idx": idx, "sig": e.sig, "msg": e.msg, "prog": prog,
                          "batch": [start, stride, k + 1]})
            if len(viols) >= maxviol:
                break
    with open(out, "w") as f:
        json.dump({"stats": stats.to_json(), "viols": viols, "done": done, "wall": time.monotonic() - t0}, f)


def sample_text(mod, prog, idx):
    if hasattr(mod, "sample_text"):
        return mod.sample_text(prog, idx)
    return {"run": idx, "program": brief(prog)}


def brief(prog):
    """A program in short lines."""
    out = []
    for s in prog.get("steps", []):
        p = s.get("p")
        out.append(f"#{s['i']} = {s['op']}({', '.join('#%d' % j for j in s['a'])}"
                   + (f"; {json.dumps(p)}" if p else "") + ")")
    rest = {k: v for k, v in prog.items() if k != "steps"}
    return {"steps": out, **rest}


# Minimisation ---------------------------------------------------------------------------


def ddmin(items, test, deadline):
    """Smallest sublist (1-minimal, time permitting) for which `test` holds."""
    n = 2
    while len(items) >= 1 and time.monotonic() < deadline:
        size = max(1, len(items) // n)
        for i in range(0, len(items), size):
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                n = max(n - 1, 2)
                break
            if time.monotonic() > deadline:
                return items
        else:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(mod, prog, sig, seconds=25):
    deadline = time.monotonic() + seconds
    tries = [0]

    def fails(p):
        tries[0] += 1
        try:
            e = run_once(mod, p, NoStats(), limit=20)
        except Exception:
            return False
        return e is not None and e.sig == sig

    if not fails(prog):
        return None, tries[0]
    best = prog
    if hasattr(mod, "simplify"):
        for cand in mod.simplify(best):
            if time.monotonic() > deadline:
                break
            if fails(cand):
                best = cand
    for _ in range(3):
        before = json.dumps(best)
        for key in getattr(mod, "LISTS", ["steps"]):
            if isinstance(best.get(key), list) and best[key]:
                def test(items, key=key):
                    return fails({**best, key: items})

                best = {**best, key: ddmin(list(best[key]), test, deadline)}
        # Steps whose arguments are gone do nothing: drop them for readability.
        if "steps" in best:
            have, keep = set(), []
            for s in best["steps"]:
                if all(j in have for j in s["a"]):
                    have.add(s["i"])
                    keep.append(s)
            if len(keep) < len(best["steps"]) and fails({**best, "steps": keep}):
                best = {**best, "steps": keep}
        if json.dumps(best) == before or time.monotonic() > deadline:
            break
    return best, tries[0]


def execute_file(path):
    """Replay a file. Returns a `Mismatch` or `None`."""
    with open(path) as f:
        d = json.load(f)
    mod = prop_module(d["property"])
    if hasattr(mod, "prepare"):
        mod.prepare()
    boot.load(jax=getattr(mod, "JAX", False))
    if d["kind"] == "program":
        return run_once(mod, d["program"], NoStats())
    start, stride, n = d["batch"]
    e = None
    st = NoStats()
    for k in range(n):
        idx = start + k * stride
        e = run_once(mod, mod.generate(seed_rng(d["seed"], d["property"], idx), idx, d.get("thorough", False)), st)
        if k % 50 == 49:
            gc.collect()
        if e is not None:
            return e
    return e
