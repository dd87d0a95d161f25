"""Known findings: genuine defects of the library that are recorded, not repaired.

The entries live in /verif/known_findings.json; each names one of the predicates below, which
decide from the failing call (operation, structures and shapes of its operands) whether a
mismatch is that finding. Nothing else is suppressed, and nothing is ever added at run time.
"""
import json
import os

import numpy as np

import boot

FILE = os.path.join(boot.VERIF, "known_findings.json")


def load():
    with open(FILE) as f:
        d = json.load(f)
    return {k["id"]: k for k in d["findings"]}


def _kinds(w, s):
    return [type(w.o[j]).__name__ for j in s["a"] if j in w.o]


def _msh(w, s):
    return [tuple(np.shape(w.m.mv[j]))[-2:] for j in s["a"] if w.m.mv.get(j) is not None]


SHAPED = ("Diagonal", "LowerTriangular", "UpperTriangular", "Woodbury")


def stretched(w, s):
    """Element-wise operation that stretches rows or columns: the kinds of all operands and
    of those that are stretched."""
    if s["op"] not in ("add", "sub", "mul", "div"):
        return None
    sh = _msh(w, s)
    if len(sh) != 2 or len(sh[0]) < 2 or len(sh[1]) < 2 or sh[0] == sh[1]:
        return None
    ks = _kinds(w, s)
    tgt = tuple(max(a, b) for a, b in zip(*sh))
    return ks, [k for k, h in zip(ks, sh) if h != tgt]


def small_structured(w, s):
    x = stretched(w, s)
    if x is None:
        return False
    ks, small = x
    if s["op"] in ("add", "sub"):
        return any(k in SHAPED for k in small) and all(k in SHAPED for k in ks)
    return any(k in SHAPED for k in small) or any(k in ("LowRank", "Kronecker") for k in small) and "Constant" in ks


def submatrix_order(w, s):
    if s["op"] != "submatrix":
        return False
    v = s["p"]["v"]
    if v and isinstance(v[0], bool):
        return False
    sh = _msh(w, s)
    if sh:
        # Negative indices count from the end.
        v = [int(i) % sh[0][-1] for i in v]
    return _kinds(w, s)[0] in ("Diagonal", "LowerTriangular", "UpperTriangular", "Woodbury") and any(
        b <= a for a, b in zip(v, v[1:])
    )


def _has_lowrank(o):
    t = type(o).__name__
    return t == "LowRank" or t == "Kronecker" and (_has_lowrank(o.left) or _has_lowrank(o.right))


def _has_zero(o):
    t = type(o).__name__
    return t == "Zero" or t == "Kronecker" and (_has_zero(o.left) or _has_zero(o.right))


def solve_zero(w, s):
    if s["op"] not in ("solve", "cholsolve", "trisolve", "iqf", "iqf_diag"):
        return False
    return any(_has_zero(w.o[j]) for j in s["a"][1:] if j in w.o)


world_struct = SHAPED + ("LowRank", "Kronecker")
PREDS = {f.__name__: f for f in (small_structured, submatrix_order, solve_zero)}
_loaded = None


def findings():
    global _loaded
    if _loaded is None:
        _loaded = load()
    return _loaded


def risky(w, s):
    """Whether the call meets the conditions of a finding, or may return an object on which
    later calls do. Its result is checked, but then no longer relied on."""
    x = stretched(w, s)
    if x is not None and any(k in world_struct for k in x[0]):
        return "stretched"
    for kid, k in findings().items():
        p = PREDS.get(k["predicate"])
        if p is not None and p(w, s):
            return kid
    return None


def match(prop, w, s, e):
    for kid, k in findings().items():
        if k["property"] != prop:
            continue
        p = PREDS.get(k["predicate"])
        if p is not None and e.sig.replace("audit-", "") in k["signatures"] and p(w, s):
            return kid
    return None
