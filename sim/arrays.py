"""Arrays named by small specifications, so that programs are plain JSON.

{"k": kind, "s": seed, "sh": shape, "dt": dtype, "lay": layout}

Values are multiples of 1/4 (exact in every dtype used), so that coincidences between
columns, exact cancellation and equality do happen. Values are derived per batch element
and per column, so two specs may share columns in some batch elements and not in others.
"""
import hashlib
import random

import numpy as np


def rng(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


DT = {"f8": np.float64, "f4": np.float32, "i8": np.int64, "b1": np.bool_}
GRID = [-2.0, -1.5, -1.25, -1.0, -0.75, -0.5, 0.5, 0.75, 1.0, 1.25, 1.5, 2.0]
POS = [0.5, 0.75, 1.0, 1.25, 1.5, 2.0, 2.5]


def _fill(sh, r, vals):
    a = np.empty(sh, dtype=np.float64)
    f = a.reshape(-1)
    for i in range(f.size):
        f[i] = r.choice(vals)
    return a


def _mat(kind, r, m, n):
    if kind == "grid":
        return _fill((m, n), r, GRID)
    if kind == "pos":
        return _fill((m, n), r, POS)
    if kind == "sparse":
        return _fill((m, n), r, GRID + [0.0] * 12)
    if kind == "ones":
        return np.ones((m, n))
    if kind == "int":
        return _fill((m, n), r, [-2, -1, 1, 2, 3])
    if kind in ("pd", "inv", "lt", "ut", "ltp", "utp"):
        assert m == n, (kind, m, n)
        if kind == "pd":
            g = _fill((n, n), r, [-1.0, -0.5, 0.0, 0.5, 1.0])
            return g @ g.T / 2 + np.diag([r.choice([1.0, 1.5, 2.0]) for _ in range(n)])
        if kind == "inv":
            g = _fill((n, n), r, [-0.5, -0.25, 0.0, 0.25, 0.5])
            s = np.diag([r.choice([-1, 1]) * (n * 0.5 + r.choice([0.5, 1.0])) for _ in range(n)])
            p = list(range(n))
            r.shuffle(p)
            return (g + s)[p]
        a = _fill((n, n), r, [-1.0, -0.5, 0.5, 1.0])
        a = np.tril(a, -1) if kind in ("lt", "ltp") else np.triu(a, 1)
        ds = POS if kind.endswith("p") else [-1.5, -1.0, 1.0, 1.5, 2.0]
        return a + np.diag([r.choice(ds) for _ in range(n)])
    if kind == "psd":
        k = max(1, m // 2)
        g = _fill((m, k), r, [-1.0, 0.5, 1.0])
        return g @ g.T
    raise ValueError(kind)


def make(spec):
    k, s, sh = spec["k"], spec["s"], tuple(spec["sh"])
    dt = DT[spec.get("dt", "f8")]
    if k == "mask":
        r = rng("mask", s)
        out = np.array([r.random() < 0.6 for _ in range(sh[0])])
        out[r.randrange(sh[0])] = True
        return out
    if k == "cols":
        # `cs[b][j]`: seed of column `j` in batch element `b`.
        m = sh[-2]
        out = np.empty(sh)
        flat = out.reshape(-1, sh[-2], sh[-1])
        for b, row in enumerate(spec["cs"]):
            for j, c in enumerate(row):
                r = rng("col", c)
                flat[b, :, j] = [0.0] * m if c == 0 else [r.choice(GRID) for _ in range(m)]
    elif k == "perm":
        # A one-sided selection matrix is never needed; this is a permutation.
        out = np.eye(sh[-1])[list(spec["p"])]
    elif k in ("vgrid", "vpos", "vint", "vsparse"):
        vals = {"vgrid": GRID, "vpos": POS, "vint": [-2, -1, 1, 2, 3], "vsparse": GRID + [0.0] * 6}[k]
        out = _fill(sh, rng("v", k, s, sh), vals)
    else:
        lead = sh[:-2]
        out = np.empty(sh)
        flat = out.reshape((-1,) + sh[-2:])
        for b in range(flat.shape[0]):
            flat[b] = _mat(k, rng("m", k, s, b, sh[-2:]), sh[-2], sh[-1])
    if "sc" in spec:
        out = out * spec["sc"]
    if "j" in spec:
        out = jitter(out, spec)
    if dt is np.int64:
        out = np.rint(out * 2)
    out = out.astype(dt)
    return layout(out, spec.get("lay", 0), spec.get("ro", False))


def jitter(a, spec):
    """Version `j` of the data: other values, none of which coincide unless they come from
    the same column or array; signs, zeros, symmetry and definiteness stay."""
    k, s, j = spec["k"], spec["s"], spec["j"]
    if k == "cols":
        f = np.ones(a.shape)
        flat = f.reshape(-1, *a.shape[-2:])
        for b, row in enumerate(spec["cs"]):
            for i, c in enumerate(row):
                r = rng("jc", c, 0 if c in spec.get("pin", ()) else j)
                flat[b, :, i] = [1 + 0.08 * r.random() for _ in range(a.shape[-2])]
        return a * f
    r = rng("j", k, s, j, a.shape)
    if k in ("pd", "psd", "inv", "lt", "ut", "ltp", "utp"):
        d = np.array([1 + 0.08 * r.random() for _ in range(a[..., 0].size)]).reshape(a.shape[:-1])
        return a * d[..., :, None] * d[..., None, :]
    return a * np.array([1 + 0.08 * r.random() for _ in range(a.size)]).reshape(a.shape)


def layout(a, lay, ro=False):
    """The same values in different memory layouts."""
    if lay == 1 and a.ndim >= 2:  # transposed storage
        a = np.ascontiguousarray(np.swapaxes(a, -1, -2)).swapaxes(-1, -2)
    elif lay == 2 and a.ndim >= 1:  # strided view into a larger buffer
        big = np.full(a.shape[:-1] + (2 * a.shape[-1] + 1,), 7, dtype=a.dtype)
        big[..., 1::2] = a
        a = big[..., 1::2]
    elif lay == 3 and a.ndim >= 1:  # negative strides
        a = np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if ro and a.ndim:
        a.flags.writeable = False
    return a
