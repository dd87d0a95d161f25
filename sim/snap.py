"""Exact snapshots of objects, by documented attributes and bytes."""
import numpy as np

from world import MATRIX_TYPES, kindof, look, parts


def arr(a):
    return ("array", a.shape, a.dtype.str, a.tobytes())


def of(o):
    t = kindof(o)
    if isinstance(o, np.ndarray):
        return arr(o)
    if isinstance(o, np.generic):
        return ("scalar", o.dtype.str, o.tobytes())
    if t in MATRIX_TYPES:
        extra = ()
        if t == "Zero":
            extra = (str(np.dtype(o.dtype)), tuple(map(int, o.batch)), int(o.rows), int(o.cols))
        elif t == "Constant":
            extra = (tuple(map(int, o.batch)), int(o.rows), int(o.cols))
        elif t == "TiledBlocks":
            extra = (int(o.axis), tuple(int(r) for r in o.reps))
        elif t == "LowRank":
            extra = (int(look(o).rank),)
        return (t, extra) + tuple(of(p) for p in parts(o))
    if isinstance(o, (list, tuple)):
        return (t,) + tuple(of(x) for x in o)
    return (t, repr(o)[:2000])


def memory(a):
    """An array the caller owns: contents, layout, flags and all memory it is a view of."""
    out = [arr(a), a.strides, a.flags.writeable]
    b = a.base
    while isinstance(b, np.ndarray):
        out.append(arr(b))
        b = b.base
    return tuple(out)


def diff(x, y, path=""):
    """Where two snapshots differ, in words."""
    if type(x) is tuple and type(y) is tuple and len(x) == len(y):
        for k, (p, q) in enumerate(zip(x, y)):
            if p != q:
                if isinstance(p, tuple) and isinstance(q, tuple):
                    return diff(p, q, f"{path}{x[0]}." if isinstance(x[0], str) else path)
                if isinstance(p, bytes) and len(p) == len(q) and x[0] in ("array", "scalar"):
                    dt = np.dtype(x[2] if x[0] == "array" else x[1])
                    return f"{path}{x[0]}: {np.frombuffer(p, dt)[:8]} became {np.frombuffer(q, dt)[:8]}"
                return f"{path}{x[0] if isinstance(x[0], str) else ''}: {str(p)[:120]} became {str(q)[:120]}"
    return f"{path}: {str(x)[:120]} became {str(y)[:120]}"
