"""Faults inside calls: exceptions that arrive at a chosen point of a chosen step.

A fault is JSON: {"s": step, "kind": ..., "u": float, "v": float, "m": mode}. Its point is
resolved against the trace of a fault-free execution of the same program, so that `u` and
`v` choose evenly among the distinct source positions the step passes ("site" mode) or
among all its events ("flat"), and rare positions are reached. Kinds:

KI   KeyboardInterrupt between two lines of the library
ME   MemoryError between two lines of the library
KM   MemoryError on entry to an array-layer function
KL   LinAlgError on entry to an array-layer linear-algebra kernel
WE   the n-th warning of the step becomes an error
WH   the process's warning display hook fails at the n-th warning
"""
import contextlib
import sys
import warnings

import numpy as np

import monitor

EV = monitor.MON.events
LINALG = {"_cholesky", "cholesky_solve", "det", "eig", "inv", "logdet", "solve", "svd", "triangular_solve", "_triangular_solve", "logm"}
KINDS = ["KI", "KI", "ME", "KM", "KL", "WE", "WH"]


class Interrupt(KeyboardInterrupt):
    vsim = True


class NoMemory(MemoryError):
    vsim = True


class Singular(np.linalg.LinAlgError):
    vsim = True


class HookError(OSError):
    vsim = True


EXC = {"KI": Interrupt, "ME": NoMemory, "KM": NoMemory, "KL": Singular}


def random_faults(r, steps, kinds=None, skip=("arr", "scal", "gc"), n=None):
    c = [s["i"] for s in steps if s["op"] not in skip]
    out = []
    if not c:
        return out
    n = n or r.choice([1, 1, 2, 3, 4])
    for _ in range(n):
        out.append({"s": r.choice(c), "kind": r.choice(kinds or KINDS), "u": round(r.random(), 4),
                    "v": round(r.random(), 4), "m": r.choice(["site", "site", "flat"])})
    return out


class Trace:
    """Events of every step of a fault-free execution."""

    def __init__(self):
        self.ev = {}  # step -> {"L": [(code, line)], "K": [code], "W": n}

    def start(self, i):
        self.cur = self.ev[i] = {"L": [], "K": [], "W": 0}

    def stop(self):
        self.cur = None

    cur = None

    def line(self, code, line):
        if self.cur is not None:
            self.cur["L"].append((code, line))

    def kernel(self, code, off):
        if self.cur is not None:
            self.cur["K"].append(code)

    def warned(self):
        if self.cur is not None:
            self.cur["W"] += 1

    def lines(self):
        return sum(len(e["L"]) for e in self.ev.values())

    def resolve(self, f):
        """(event class, index, site) of a fault, or `None`."""
        e = self.ev.get(f["s"])
        if e is None:
            return None
        k = f["kind"]
        if k in ("KI", "ME"):
            return self._pick("L", e["L"], f)
        if k == "KM":
            return self._pick("K", e["K"], f)
        if k == "KL":
            idx = [j for j, c in enumerate(e["K"]) if c.co_name in LINALG]
            if not idx:
                return None
            j = idx[min(int(f["u"] * len(idx)), len(idx) - 1)]
            return "K", j, monitor.site(e["K"][j])
        if e["W"] == 0:
            return None
        return "W", min(int(f["u"] * e["W"]), e["W"] - 1), "warning"

    def _pick(self, cls, evs, f):
        if not evs:
            return None
        if f["m"] == "flat":
            j = min(int(f["u"] * len(evs)), len(evs) - 1)
        else:
            pos = {}
            for j, x in enumerate(evs):
                pos.setdefault(x, []).append(j)
            sites = list(pos)
            occ = pos[sites[min(int(f["u"] * len(sites)), len(sites) - 1)]]
            j = occ[min(int(f["v"] * len(occ)), len(occ) - 1)]
        x = evs[j]
        return cls, j, monitor.site(x[0]) + f":{x[1]}" if cls == "L" else monitor.site(x)


class Injector:
    """Delivers the faults of one step at a time."""

    def __init__(self):
        self.armed = None
        self.fired = None
        self.n = {"L": 0, "K": 0, "W": 0}
        self.kind = None
        self.extra = None  # called at every line

    def arm(self, kind, cls, idx):
        self.kind, self.armed, self.fired = kind, (cls, idx), None
        self.n = {"L": 0, "K": 0, "W": 0}

    def disarm(self):
        f, self.armed, self.fired = self.fired, None, None
        return f

    def _hit(self, cls):
        a = self.armed
        if a is None or a[0] != cls:
            return False
        k = self.n[cls]
        self.n[cls] = k + 1
        return k == a[1]

    def line(self, code, line):
        if self.extra is not None:
            self.extra(code, line)
        if self._hit("L"):
            self.armed = None
            self.fired = EXC[self.kind](f"injected at {monitor.site(code)}:{line}")
            raise self.fired

    def kernel(self, code, off):
        if self._hit("K"):
            self.armed = None
            self.fired = EXC[self.kind](f"injected in {monitor.site(code)}")
            raise self.fired

    def warned(self, message, category):
        if self._hit("W"):
            self.armed = None
            if self.kind == "WE":
                self.fired = message if isinstance(message, Warning) else category(message)
            else:
                self.fired = HookError("the warning display hook failed")
            raise self.fired


@contextlib.contextmanager
def active(target, warn=True, kernels=True):
    """Deliver events to `target` (a `Trace` or an `Injector`)."""
    spec = [("matrix", EV.LINE, target.line)]
    if kernels:
        spec.append(("lab", EV.PY_START, target.kernel))
    old = warnings.showwarning, warnings.filters[:]
    if warn:
        if isinstance(target, Injector):
            def hook(message, category, filename, lineno, file=None, line=None):
                target.warned(message, category)
        else:
            def hook(message, category, filename, lineno, file=None, line=None):
                target.warned()
        warnings.showwarning = hook
        warnings.resetwarnings()
        warnings.simplefilter("always")
    try:
        with monitor.events(spec):
            yield target
    finally:
        if warn:
            warnings.showwarning = old[0]
            warnings.resetwarnings()
            warnings.filters[:] = old[1]
            getattr(warnings, "_filters_mutated", lambda: None)()


def caused_by(e, fired):
    """Whether exception `e` is the injected one or was raised while handling it."""
    seen = set()
    while e is not None and id(e) not in seen:
        if e is fired or type(e) is type(fired) and getattr(e, "vsim", False):
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False
