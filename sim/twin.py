"""Comparing two executions of the same program, and objects with newly built equals."""
import numpy as np

import known
import world
from ops import OPS, Skip
from world import Mismatch, absval, close, clone, kindof, structure


def ename(e):
    return "injected" if getattr(e, "vsim", False) else type(e).__name__


def run_step(w, s):
    """As `World.do`, but lets nothing escape: 'ok', 'exc' or 'skip'."""
    a = w.args(s)
    if a is None:
        return "skip"
    try:
        r = w.call(s, a)
    except (Exception, KeyboardInterrupt) as e:
        w.exc[s["i"]] = e
        return "exc"
    w.exc.pop(s["i"], None)
    w.o[s["i"]] = r
    return "ok"


def baseline(w, steps, trace=None, stats=None):
    """Execute without faults and verify. Returns False if the library already fails there
    (other checks report that)."""
    for s in steps:
        a = w.args(s)
        if a is None:
            continue
        dom = w.in_domain(s, a)
        if trace is not None:
            trace.start(s["i"])
        st = run_step(w, s)
        if trace is not None:
            trace.stop()
        if st == "exc":
            continue
        kf = known.risky(w, s)
        try:
            w.verify(s, a, 1)
        except Mismatch:
            return False
        if kf or not dom:
            w.taint.add(s["i"])
    return True


def compare(w, w0, s, prop="twin", what=""):
    """Step `s` had the same outcome in `w` as in `w0`."""
    i = s["i"]
    if i in w0.taint:
        w.taint.add(i)
        return False
    d = w0.describe(s)
    e, e0 = w.exc.get(i), w0.exc.get(i)
    if e0 is not None:
        if e is None:
            if i in w.o:
                raise Mismatch("completes", f"{d} completes{what}, but raises {ename(e0)} otherwise", i)
            return False
        if type(e) is not type(e0):
            raise Mismatch("exception", f"{d} raises {ename(e)}: {str(e)[:200]}{what}, but {ename(e0)}: {str(e0)[:200]} otherwise", i)
        return True
    if e is not None and i not in w.o:
        if i in w0.o:
            raise Mismatch("exception", f"{d} raises {ename(e)}: {str(e)[:300]}{what}, but completes otherwise", i)
        return False
    if i not in w0.o or i not in w.o:
        return False
    o, o0 = w.o[i], w0.o[i]
    op = OPS[s["op"]]
    if op.cmp == "shape" or s["op"] == "dtype":
        if _plain(o) != _plain(o0):
            raise Mismatch("value", f"{d} = {o}{what}, but {o0} otherwise", i)
        return True
    if op.cmp in ("str", "bad") or s["op"] == "gc":
        return True
    same(o, o0, w0.m.tol.get(i, 1e-6), w0.m.scale.get(i, 1.0), d, what, i)
    return True


def _plain(o):
    return tuple(int(x) for x in o) if not isinstance(o, str) else o


def same(o, o0, tol, scale, d, what, i=None):
    if structure(o) != structure(o0):
        raise Mismatch("structure", f"{d} is {structure(o)}{what}, but {structure(o0)} otherwise", i)
    try:
        v0 = np.asarray(absval(o0))
    except ValueError:
        return
    try:
        v = np.asarray(absval(o))
    except Exception as e:
        raise Mismatch("broken", f"{d} is unusable{what}: {type(e).__name__}: {e}", i)
    if v0.dtype.kind not in "fiub":
        if v0.dtype != v.dtype:
            raise Mismatch("dtype", f"{d} has data type {v.dtype}{what}, but {v0.dtype} otherwise", i)
        return
    # Widths are left out: LAB's Cholesky promotes single precision, so the width of a Schur
    # complement depends on whether `schur` or `pd_schur` came first.
    if v.dtype.kind != v0.dtype.kind:
        raise Mismatch("dtype", f"{d} has data type {v.dtype}{what}, but {v0.dtype} otherwise", i)
    if v0.size and not np.isfinite(v0).all():
        return
    e = close(v, v0, tol, max(scale, float(np.abs(v0).max(initial=0)) if v0.dtype != bool else 1.0))
    if e:
        raise Mismatch("value", f"{d}{what}: {e}", i)


PROBES = [("dense", {}), ("chol", {}), ("inv", {}), ("pd_inv", {}), ("logdet", {}), ("schur", {}), ("pd_schur", {}),
          ("diag", {}), ("sum", {"ax": -1}), ("neg", {}), ("T", {}), ("root", {}), ("sample", {"seed": 7, "n": 2}), ("repr", {}),
          ("shape", {})]
BIN = [("add", {}), ("mm", {}), ("mul", {})]


def probe(w, objs, r, n=6, stats=None, what=" after this history"):
    """Further calls on objects with a history complete and return what they do on newly
    built equal objects."""
    x = w.x
    for i in objs:
        o = w.o[i]
        if kindof(o) not in world.MATRIX_TYPES or i in w.taint:
            continue
        probes = PROBES
        for k in range(n):
            name, p = r.choice(probes) if r.random() < 0.8 else r.choice(BIN)
            args = [o] if name not in ("add", "mm", "mul") else [o, o]
            if name in ("schur", "pd_schur") and kindof(o) != "Woodbury":
                continue
            if name == "mm" and tuple(np.shape(absval(o)))[-1] != np.shape(absval(o))[-2]:
                continue
            try:
                with np.errstate(all="ignore"):
                    if not world.guard(name, args, p):
                        continue
            except (np.linalg.LinAlgError, Skip, ValueError):
                continue
            c = clone(o, x.M)
            d = f"{name}(#{i}:{kindof(o)})"
            res = []
            for q in (c, o):
                try:
                    res.append(("ok", OPS[name].call(x, [q] * len(args), p)))
                except Exception as e:
                    res.append(("exc", e))
            (s0, r0), (s1, r1) = res
            if stats is not None:
                stats.add("probes made")
            if s0 != s1 or s0 == "exc" and type(r0) is not type(r1):
                raise Mismatch("probe", f"{d}{what}: {s1} {ename(r1) if s1 == 'exc' else ''} {str(r1)[:200] if s1 == 'exc' else ''}, but {s0} {ename(r0) if s0 == 'exc' else ''} on a newly built equal object", i)
            if s0 == "ok" and name == "shape":
                if _plain(r0) != _plain(r1):
                    raise Mismatch("probe", f"{d}{what}: {r1}, but {r0} on a newly built equal object", i)
            elif s0 == "ok" and name != "repr":
                try:
                    same(r1, r0, w.m.tol.get(i, 1e-6), w.m.scale.get(i, 1.0), d, what, i)
                except Mismatch as e:
                    e.sig = "probe-" + e.sig
                    raise
