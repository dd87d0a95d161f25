"""Locks created by the library itself become locks the simulator can schedule around.

If code under test (for example a behaviour-preserving edit) creates a `threading.Lock`,
a thread parked while holding it would really block the thread that is released next. So
lock factories called from the library's files return locks whose blocking acquire, in a
simulated thread, is a loop over a scheduling point.
"""
import sys
import threading
import time

_real = {}
current = None  # Set by the scheduler: callable returning the simulated thread or `None`.


class SimLock:
    def __init__(self, inner):
        self._inner = inner

    def acquire(self, blocking=True, timeout=-1):
        if not blocking:
            return self._inner.acquire(False)
        t = current() if current is not None else None
        if t is None:
            return self._inner.acquire(True, timeout)
        tries = 0
        while not self._inner.acquire(False):
            tries += 1
            if timeout is not None and timeout >= 0 and tries > 3:
                return False
            t.blocked()
        return True

    def release(self):
        self._inner.release()

    def locked(self):
        return self._inner.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, name):
        return getattr(self._inner, name)

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def install(prefix):
    """Patch the lock factories for callers in files below `prefix`."""
    if _real:
        return
    for name in ("Lock", "RLock"):
        real = getattr(threading, name)
        _real[name] = real

        def factory(*a, _real_f=real, **k):
            caller = sys._getframe(1).f_code.co_filename
            if caller.startswith(prefix):
                return SimLock(_real_f(*a, **k))
            return _real_f(*a, **k)

        setattr(threading, name, factory)
