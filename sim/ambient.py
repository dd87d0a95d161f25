"""Snapshots of settings shared by the whole process."""
import gc
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np

SIMPLE = (int, float, bool, str, bytes, type(None), complex)
_fns = None


def _functions(B):
    """The multiple-dispatch functions of the array layer."""
    global _fns
    if _fns is None:
        _fns = [(k, v) for k, v in sorted(vars(B).items()) if hasattr(v, "_resolver") and hasattr(v, "_pending")]
        # The first call of a function completes its table (one registration can stand for
        # several methods): do so before anything is measured.
        for _, v in _fns:
            v._resolve_pending_registrations()
    return _fns


def wide(lib, heavy=True):
    """What any thread of the process sees."""
    B = lib.B
    cf = B.control_flow
    s = {
        "warning filters": tuple(map(tuple, warnings.filters)),
        "warning display": id(warnings.showwarning),
        "warning default": warnings.defaultaction,
        "epsilon": B.epsilon,
        "default_dtype": B.default_dtype,
        "cholesky_retry_factor": B.cholesky_retry_factor,
        "lazy_shapes": B.lazy_shapes.enabled,
        "control_flow": (cf._cache is None, cf._counter, cf.caching, cf.use_cache),
        "recursion limit": sys.getrecursionlimit(),
        "trace functions": (sys.gettrace(), sys.getprofile()),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "switch interval": sys.getswitchinterval(),
        "stdout": (id(sys.stdout), id(sys.stderr)),
        "excepthook": id(sys.excepthook),
        "global random state": np.random.get_state(legacy=True)[1].tobytes() + repr(np.random.get_state(legacy=True)[2:]).encode(),
    }
    if heavy:
        s.update({
            "array layer": tuple((k, v if isinstance(v, SIMPLE) else id(v)) for k, v in sorted(vars(B).items())),
            "dispatch tables": tuple((k, len(v._resolver) if hasattr(v._resolver, "__len__") else len(v._resolver.methods), len(v._pending)) for k, v in _functions(B)),
            "print options": repr(sorted(np.get_printoptions().items(), key=str)),
            "working directory": os.getcwd(),
            "environment": hash(tuple(sorted(os.environ.items()))),
            "sys.path": tuple(sys.path),
            "interrupt handler": signal.getsignal(signal.SIGINT),
            "matrix module": tuple((k, id(v)) for k, v in sorted(vars(lib.M).items()) if not isinstance(v, type(os))),
        })
        # Pending registrations move to the resolver on first use.
        s["dispatch tables"] = tuple((k, a + b) for k, a, b in s["dispatch tables"])
    return s


def own(lib, heavy=True):
    """What the calling thread sees."""
    s = wide(lib, heavy)
    s["floating-point errors"] = tuple(sorted(np.geterr().items()))
    s["floating-point callback"] = np.geterrcall()
    s["array buffer size"] = np.getbufsize()
    s["threads"] = threading.active_count()
    return s


def diff(a, b, allow=()):
    for k in a:
        if k in b and a[k] != b[k] and k not in allow:
            x, y = a[k], b[k]
            if isinstance(x, tuple) and isinstance(y, tuple):
                d = [(p, q) for p, q in zip(x, y) if p != q][:2]
                return f"{k}: {d[0][0] if d else x} became {d[0][1] if d else y}"
            if isinstance(x, bytes):
                return f"{k} changed"
            return f"{k}: {x} became {y}"
    return None


class Observer:
    """Another thread that looks at the process on command."""

    def __init__(self, lib):
        self.lib = lib
        self.ask, self.done = threading.Semaphore(0), threading.Semaphore(0)
        self.over = False
        self.seen = None
        self.th = threading.Thread(target=self._run, daemon=True)
        self.th.start()

    def _run(self):
        while True:
            self.ask.acquire()
            if self.over:
                return
            self.seen = wide(self.lib, False)
            self.seen["floating-point errors of another thread"] = tuple(sorted(np.geterr().items()))
            self.done.release()

    def look(self):
        self.ask.release()
        self.done.acquire()
        return self.seen

    def close(self):
        self.over = True
        self.ask.release()
        self.th.join(5)
