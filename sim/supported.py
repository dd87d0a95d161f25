"""Which operations are implemented for which operand structures.

The table /verif/supported.json was learned on the pinned tree (`check call c01 learn`): an
entry is an operation with the structures of its operands for which at least MIN in-domain
calls were made and none raised. A call the table lists must complete.
"""
import json
import os

import numpy as np

import boot

def _w():
    import world

    return world


FILE = os.path.join(boot.VERIF, "supported.json")
_t = None


def kind(o):
    t = type(o).__name__
    if t == "Kronecker":
        return f"K({kind(o.left)},{kind(o.right)})"
    if t == "TiledBlocks":
        return "T(" + ",".join(sorted({kind(b) for b in o.blocks})) + ")"
    if t == "LowRank":
        return f"LR({kind(_w().look(o).middle)})"
    if t == "Woodbury":
        return f"W({kind(_w().look(o.lr).middle)})"
    return {"Dense": "D", "Diagonal": "I", "Constant": "C", "Zero": "Z", "LowerTriangular": "L",
            "UpperTriangular": "U", "ndarray": "a"}.get(t, "s" if not hasattr(o, "shape") or getattr(o, "ndim", 1) == 0 else t)


def shp(o):
    """Shape of an operand, from its documented attributes."""
    import world

    try:
        return tuple(np.shape(world.absval(o)))
    except Exception:
        return ()


def rel(o, sh):
    x = shp(o)
    return ("e" if x[-2:] == tuple(sh)[-2:] else "d") + ("e" if x[:-2] == tuple(sh)[:-2] else "d")


def conform(op, p, x, y):
    """Products of Kronecker products are only supported if their factors match."""
    if kind(x)[0] != "K" or kind(y)[0] != "K":
        a, b = shp(x), shp(y)
        return a[-2:] == b[-2:] if op != "mm" else a[-1:] == b[-2:-1]
    return conform(op, p, x.left, y.left) and conform(op, p, x.right, y.right)


def key(op, p, a):
    p = p or {}
    f = ""
    if op in ("sum", "mean"):
        f = ":all" if p.get("ax") is None else ":ax"
    elif op in ("mm", "mm3", "mmd"):
        f = ":" + "".join("1" if p.get(k) else "0" for k in ("ta", "tb"))
    elif op == "getitem":
        f = ":" + "".join(e[0] for e in p["ix"])
    elif op in ("take", "submatrix"):
        f = ":" + p["f"] + ("m" if isinstance(p["v"][0], bool) else "i")
    elif op == "concat":
        f = ":" + str(p["ax"] < 0)
    elif op == "reshape" or op == "squeeze":
        f = ":" + str(p.get("f", 0))
    elif op == "bto":
        f = ":" + rel(a[0], p["sh"])
    if len(a) == 2 and op in ("add", "sub", "mul", "div", "mm", "mmd", "solve", "kron", "min", "max"):
        x, y = shp(a[0]), shp(a[1])
        f += ":" + ("e" if x[-2:] == y[-2:] else "d") + ("e" if x[:-2] == y[:-2] else "d")
    if len(a) == 3:
        f += ":" + ("e" if len({shp(o)[:-2] for o in a}) == 1 else "d")
    return op + f + "|" + "|".join(kind(o) for o in a)


def table():
    global _t
    if _t is None:
        try:
            with open(FILE) as f:
                _t = set(json.load(f)["supported"])
        except FileNotFoundError:
            _t = set()
    return _t


def applies(op, p, a):
    """Whether the table speaks about this call."""
    ks = [o for o in a if kind(o)[0] == "K"]
    if len(ks) > 1:
        return op in ("mul", "mm") and not any((p or {}).get(k) for k in ("ta", "tb")) and conform(op, p, *a)
    return True


def has(op, p, a):
    return applies(op, p, a) and key(op, p, a) in table()
