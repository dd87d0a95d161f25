"""Seams into running code: events of the interpreter on the library's own code objects.

`sys.monitoring` (PEP 669) calls back at every line or instruction of chosen code objects, in
the thread that executes it, and an exception raised by the callback surfaces at exactly that
point. Schedules and faults are injected there; the library itself is not modified, and with
no simulation running nothing is installed.
"""
import contextlib
import functools
import gc
import os
import sys
import types

import boot

MON = sys.monitoring
TOOL = 3
_codes = {}


def _walk(code, out):
    if code in out:
        return
    out.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c, out)


def codes(which):
    """All code objects of the library ('matrix') or of LAB's kernels ('lab')."""
    if which not in _codes:
        lib = boot.load()
        if which == "matrix":
            pre = os.path.join(boot.REPO, "matrix") + os.sep
        else:
            pre = os.path.dirname(os.path.realpath(lib.B.__file__)) + os.sep
        out = set()
        real = functools.lru_cache(None)(os.path.realpath)
        for o in gc.get_objects():
            if isinstance(o, types.FunctionType) and real(o.__code__.co_filename).startswith(pre):
                _walk(o.__code__, out)
        _codes[which] = sorted(out, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    return _codes[which]


def site(code):
    """A readable name of a code object."""
    f = code.co_filename
    for m in ("matrix" + os.sep, "lab" + os.sep):
        k = f.rfind(os.sep + m)
        if k >= 0:
            f = f[k + 1:]
            break
    return f"{f}:{code.co_qualname}"


_active = None


@contextlib.contextmanager
def events(spec):
    """`spec`: list of (which code objects, event, callback)."""
    global _active
    if _active is not None:
        raise boot.HarnessError("monitoring is already active")
    _active = True
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "vsim")
    # Code objects stay instrumented between uses (setting and clearing them is slow);
    # without a registered callback nothing happens.
    try:
        sets = {}
        for which, ev, cb in spec:
            sets[which] = sets.get(which, 0) | ev
        for which in set(sets) | set(_set):
            e = sets.get(which, 0)
            if _set.get(which, 0) != e:
                for c in codes(which):
                    MON.set_local_events(TOOL, c, e)
                _set[which] = e
        for which, ev, cb in spec:
            MON.register_callback(TOOL, ev, cb)
        yield
    finally:
        for which, ev, cb in spec:
            MON.register_callback(TOOL, ev, None)
        _active = None


_set = {}


def lines(cb, which="matrix"):
    return events([(which, MON.events.LINE, cb)])
