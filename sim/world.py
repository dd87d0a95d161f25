"""Executing programs against the library, and the oracles used on what comes back."""
import copy
import warnings

import numpy as np

import arrays
import boot
import ops
from ops import OPS, Skip


class Mismatch(Exception):
    """The library broke the property. `sig` names the kind of failure."""

    def __init__(self, sig, msg, step=None):
        super().__init__(f"[{sig}] {msg}")
        self.sig, self.msg, self.step = sig, msg, step


class X:
    """What operations need to know about the backend."""

    force_ro = False  # Make all arrays read-only.
    held = None  # Containers passed to the library, if wanted.

    def __init__(self, lib, backend="numpy"):
        self.B, self.M, self.np = lib.B, lib.M, lib.np
        self.lib, self.backend = lib, backend
        self.Abs = lib.M.AbstractMatrix

    def arr(self, a, np=False):
        if self.backend == "jax" and not np:
            return self.lib.jnp.asarray(a)
        return a

    def dt(self, name):
        d = arrays.DT[name]
        if self.backend == "jax":
            return {"f8": self.lib.jnp.float64, "f4": self.lib.jnp.float32, "i8": self.lib.jnp.int64, "b1": self.lib.jnp.bool_}[name]
        return d

    def mat(self, a):
        """Operations that are only defined for matrix objects get one."""
        if isinstance(a, self.Abs):
            return a
        return self.M.Dense(a)

    def random_state(self, seed):
        if self.backend == "jax":
            return self.lib.jax.random.PRNGKey(seed)
        return np.random.RandomState(seed)


# Abstraction: what a library object stands for, read from its documented attributes, so
# without calling the operations under test and without filling caches.


def kindof(o):
    return type(o).__name__


def look(o):
    """`o`, or a shallow copy if reading its documented attributes would fill a cache."""
    return copy.copy(o) if type(o).__name__ == "LowRank" else o


def absval(o, B=None):
    t = kindof(o)
    if isinstance(o, np.ndarray):
        return o
    if t in ("Dense", "LowerTriangular", "UpperTriangular"):
        return absval(o.mat)
    if t == "Zero":
        return np.zeros(tuple(map(int, tuple(o.batch) + (o.rows, o.cols))))
    if t == "Diagonal":
        return ops.diag_mat(absval(o.diag))
    if t == "Constant":
        c = absval(o.const)
        return np.broadcast_to(np.asarray(c)[..., None, None], np.shape(c) + (int(o.rows), int(o.cols)))
    if t == "LowRank":
        o = look(o)
        l, m, r = absval(o.left), absval(o.middle), absval(o.right)
        return np.matmul(np.matmul(l, m), ops.T(r))
    if t == "Woodbury":
        return absval(o.diag) + absval(o.lr)
    if t == "Kronecker":
        return ops.kron(absval(o.left), absval(o.right))
    if t == "TiledBlocks":
        return ops._tiled([absval(b) for b in o.blocks], {"ax": int(o.axis), "reps": [int(r) for r in o.reps]})
    return np.asarray(o)


def parts(o):
    """The objects an object is made of, by documented attribute."""
    t = kindof(o)
    if t in ("Dense", "LowerTriangular", "UpperTriangular"):
        return [o.mat]
    if t == "Diagonal":
        return [o.diag]
    if t == "Constant":
        return [o.const]
    if t == "LowRank":
        o = look(o)
        return [o.left, o.middle, o.right]
    if t == "Woodbury":
        return [o.diag, o.lr]
    if t == "Kronecker":
        return [o.left, o.right]
    if t == "TiledBlocks":
        return list(o.blocks)
    return []


def structure(o):
    """Type tree of a result."""
    t = kindof(o)
    if t in MATRIX_TYPES:
        ps = parts(o)
        return (t,) + tuple(structure(p) for p in ps)
    return "array" if isinstance(o, np.ndarray) or np.isscalar(o) or hasattr(o, "shape") else t


MATRIX_TYPES = {
    "Zero", "Dense", "Diagonal", "Constant", "LowerTriangular", "UpperTriangular",
    "LowRank", "Woodbury", "Kronecker", "TiledBlocks",
}


def clone(o, M, copy=True):
    """A newly built object with the same structure and values."""
    t = kindof(o)
    if t not in MATRIX_TYPES:
        return np.array(o) if isinstance(o, np.ndarray) and copy else o
    c = lambda x: clone(x, M, copy)
    if t == "Dense":
        return M.Dense(c(o.mat))
    if t == "LowerTriangular":
        return M.LowerTriangular(c(o.mat))
    if t == "UpperTriangular":
        return M.UpperTriangular(c(o.mat))
    if t == "Diagonal":
        return M.Diagonal(c(o.diag))
    if t == "Zero":
        return M.Zero(o.dtype, *o.batch, o.rows, o.cols)
    if t == "Constant":
        return M.Constant(c(o.const), o.rows, o.cols)
    if t == "LowRank":
        o = look(o)
        l = c(o.left)
        return M.LowRank(l, None if o.right is o.left else c(o.right), c(o.middle))
    if t == "Woodbury":
        return M.Woodbury(c(o.diag), c(o.lr))
    if t == "Kronecker":
        return M.Kronecker(c(o.left), c(o.right))
    if t == "TiledBlocks":
        return M.TiledBlocks(*[(c(b), int(r)) for b, r in zip(o.blocks, o.reps)], axis=o.axis)


# Domains: structured algorithms for positive-definite or invertible matrices need their
# parts to be so too.


def _eigmin(a):
    a = ops.f64(a)
    if a.shape[-1] != a.shape[-2] or not np.isfinite(a).all():
        return -1.0
    if not np.allclose(a, ops.T(a), atol=1e-8 * max(1.0, np.abs(a).max(initial=0))):
        return -1.0
    return float(np.linalg.eigvalsh(a).min(initial=1e9))


def _cond_ok(a):
    a = ops.f64(a)
    if a.shape[-1] != a.shape[-2] or not np.isfinite(a).all():
        return False
    s = np.linalg.svd(a, compute_uv=False)
    return bool((s[..., -1] > 5e-3).all() and (s[..., 0] < 2e3 * s[..., -1]).all())


def ok_pd(o, semi=True):
    t = kindof(o)
    if t == "Diagonal":
        return bool((np.asarray(o.diag) > 5e-3).all())
    if t == "Constant":
        return semi and bool((np.asarray(o.const) >= 0).all())
    if t == "Zero":
        return semi
    if t == "LowRank":
        l, r = absval(o.left), absval(o.right)
        return semi and l.shape == r.shape and np.allclose(l, r) and ok_pd(look(o).middle, False)
    if t == "Woodbury":
        l, r = absval(o.lr.left), absval(o.lr.right)
        return ok_pd(o.diag) and l.shape == r.shape and np.allclose(l, r) and ok_pd(look(o.lr).middle, False)
    if t == "Kronecker":
        return ok_pd(o.left, semi) and ok_pd(o.right, semi)
    return _eigmin(absval(o)) > 5e-3


def ok_inv(o):
    t = kindof(o)
    if t == "Woodbury":
        if not (ok_inv(o.diag) and ok_inv(look(o.lr).middle)):
            return False
        d, m = absval(o.diag), absval(look(o.lr).middle)
        l, r = absval(o.lr.left), absval(o.lr.right)
        s = np.linalg.inv(ops.f64(m)) + np.matmul(np.matmul(ops.T(r), np.linalg.inv(ops.f64(d))), l)
        return _cond_ok(s)
    if t == "Kronecker":
        return ok_inv(o.left) and ok_inv(o.right)
    if t == "Diagonal":
        return bool((np.abs(np.asarray(o.diag)) > 5e-3).all())
    return _cond_ok(absval(o))


def ok_logdet(o):
    t = kindof(o)
    if t in ("LowerTriangular", "UpperTriangular"):
        return bool((ops.diag_of(absval(o)) > 5e-3).all())
    if t == "Kronecker":
        return ok_logdet(o.left) and ok_logdet(o.right)
    if t == "Woodbury":
        return ok_pd(o) and ok_inv(o)
    if t in ("LowRank", "Constant", "Zero"):
        return ok_pd(o) and _cond_ok(absval(o))
    return ok_pd(o)


def ok_elem(o, e=None):
    """Element-wise roots of a Kronecker product need both factors non-negative."""
    if kindof(o) == "Kronecker":
        return all(ok_elem(x, e) for x in (o.left, o.right))
    v = absval(o)
    return bool((v >= 0).all()) and (e is None or e > 0 or bool((np.abs(v) > 1e-3).all()))


def guard(name, a, p):
    if name == "block_diag":
        # A single tile of blocks stands for its blocks.
        return len(a) > 1 or kindof(a[0]) != "TiledBlocks"
    if name in ("chol", "sample", "pd_inv", "pd_schur", "schur"):
        return ok_pd(a[0]) and (name in ("chol", "sample") or ok_inv(a[0]))
    if name in ("iqf", "iqf_diag"):
        return ok_pd(a[0], False) and ok_inv(a[0])
    if name == "ratio":
        return ok_pd(a[0], False) and ok_pd(a[1], False) and ok_inv(a[1])
    if name == "logdet":
        return ok_logdet(a[0])
    if name in ("inv", "solve", "trisolve", "cholsolve"):
        return ok_inv(a[0])
    if name == "sqrt":
        return ok_elem(a[0])
    if name == "pow" and (p["e"] < 1):
        # Integers have no negative powers.
        return ok_elem(a[0], p["e"]) if p["e"] == 0.5 else all(
            bool((np.abs(v) > 1e-3).all()) and (p["e"] >= 0 or v.dtype.kind == "f") for v in map(absval, factors(a[0]))
        )
    if name == "root":
        return all(_eigmin(absval(x)) > 1e-6 for x in ([a[0].left, a[0].right] if kindof(a[0]) == "Kronecker" else [a[0]]))
    return True


def factors(o):
    return factors(o.left) + factors(o.right) if kindof(o) == "Kronecker" else [o]


def true_structure(o, path=""):
    """A result may only claim structure that it has."""
    t = kindof(o)
    if t == "LowerTriangular" and np.triu(absval(o), 1).any():
        return f"{path}{t} with entries above the diagonal"
    if t == "UpperTriangular" and np.tril(absval(o), -1).any():
        return f"{path}{t} with entries below the diagonal"
    if t in MATRIX_TYPES:
        for q in parts(o):
            m = true_structure(q, path + t + ".")
            if m:
                return m
    return None


def close(v, mv, tol, scale):
    v = np.asarray(v)
    if v.shape != mv.shape:
        return f"shape {v.shape} instead of {mv.shape}"
    if v.dtype == object:
        return f"an array of Python objects ({type(v.flat[0]).__name__ if v.size else 'empty'}) instead of numbers"
    if v.size == 0:
        return None
    if v.dtype == bool or mv.dtype == bool:
        return None if (v == mv).all() else "wrong Boolean values"
    with np.errstate(all="ignore"):
        err = np.abs(v.astype(np.complex128) - mv.astype(np.complex128)) if v.dtype.kind == "c" else np.abs(v.astype(np.float64) - mv)
        m = float(err.max())
    if not m <= tol * 10 * max(1.0, scale):
        return f"wrong values (error {m:.3g}, scale {scale:.3g}):\n  got      {short(v)}\n  expected {short(mv)}"
    return None


def short(a):
    s = np.array2string(np.asarray(a), precision=4, threshold=24, separator=",").replace("\n", "")
    return s if len(s) < 300 else s[:300] + "..."


class Models:
    """Reference values of all steps of a program."""

    def __init__(self, steps):
        self.mv, self.scale, self.tol = {}, {}, {}
        for s in steps:
            self.add(s)

    def add(self, s):
        i, o, p = s["i"], OPS[s["op"]], s.get("p", {})
        a = s["a"]
        tol = max([self.tol.get(j, 1e-6) for j in a], default=1e-6)
        if s["op"] in ("arr", "cast", "Zero") and p.get("dt") == "f4" or p.get("t") == "np4":
            tol = 2e-3
        self.tol[i] = tol
        sc = max([self.scale.get(j, 0.0) for j in a], default=0.0)
        v = None
        if all(self.mv.get(j) is not None for j in a):
            try:
                with warnings.catch_warnings(), np.errstate(all="ignore"):
                    warnings.simplefilter("ignore")
                    v = o.model([self.mv[j] for j in a], p)
            except (Skip, ValueError, IndexError, np.linalg.LinAlgError, TypeError):
                v = None
        if isinstance(v, np.ndarray) or np.isscalar(v):
            v = np.asarray(v)
            if v.size and v.dtype != bool:
                m = float(np.abs(v).max())
                sc = max(sc, m) if np.isfinite(m) else sc
                if not np.isfinite(m):
                    v = None
        self.mv[i], self.scale[i] = v, sc


def result_value(o, B):
    """The plain array a result stands for, by the library's own conversion."""
    return np.asarray(B.dense(o))


class World:
    """One simulated caller: the objects of a program being executed."""

    def __init__(self, lib, steps, backend="numpy", models=None):
        self.lib = lib
        self.x = X(lib, backend)
        self.steps = steps
        self.by = {s["i"]: s for s in steps}
        self.m = models or Models(steps)
        self.o = {}
        self.exc = {}
        self.taint = set()

    def args(self, s):
        """Arguments of a step or `None` if some are missing."""
        out = []
        for j in s["a"]:
            if j not in self.o:
                return None
            out.append(self.o[j])
        return out

    def call(self, s, args):
        return OPS[s["op"]].call(self.x, args, s.get("p", {}))

    def do(self, s):
        """Execute a step; returns 'ok', 'exc' or 'skip'."""
        a = self.args(s)
        if a is None:
            return "skip"
        try:
            r = self.call(s, a)
        except Exception as e:
            self.exc[s["i"]] = e
            return "exc"
        self.o[s["i"]] = r
        return "ok"

    def host(self, v):
        return v

    # Oracles

    def tainted(self, s):
        return any(j in self.taint for j in s["a"])

    def in_domain(self, s, a):
        if self.tainted(s):
            return False
        try:
            with np.errstate(all="ignore"):
                return guard(s["op"], a, s.get("p", {}))
        except (np.linalg.LinAlgError, Skip, ValueError):
            return False

    def verify(self, s, a, how=1):
        """Compare the result of step `s` (arguments `a`) with the model. `how`: 0 not at
        all (only later), 1 through documented attributes, 2 through `B.dense`."""
        i = s["i"]
        o = self.o[i]
        op = OPS[s["op"]]
        if not self.in_domain(s, a):
            self.taint.add(i)
            return "unknown"
        mv = self.m.mv.get(i)
        tol, sc = self.m.tol[i], self.m.scale[i]
        if op.cmp in ("none", "str", "twin", "bad"):
            if op.cmp != "none":
                self.taint.add(i)
            return "unknown"
        if op.cmp == "shape":
            if mv is not None and tuple(int(d) for d in o) != tuple(mv if isinstance(mv, tuple) else mv.shape):
                raise Mismatch("shape", f"{self.describe(s)} = {tuple(o)}", i)
            return "ok"
        if op.cmp == "chol":
            self.check_chol(s, a[0], o)
            return "ok"
        if how == 0 or mv is None:
            if mv is None:
                self.taint.add(i)
            return "deferred"
        self.check_value(s, o, how)
        return "ok"

    def check_chol(self, s, a, L):
        i = s["i"]
        mva = self.m.mv.get(s["a"][0])
        tol, sc = self.m.tol[i], self.m.scale[i]
        v = ops.f64(absval(L))
        if mva is None:
            self.taint.add(i)
            return
        if np.isnan(v).any():
            raise Mismatch("value", f"{self.describe(s)} contains NaN", i)
        prod = np.matmul(v, ops.T(v))
        e = close(np.broadcast_to(prod, np.broadcast_shapes(prod.shape, mva.shape)), ops.f64(mva), max(tol, 1e-6), sc)
        if e or v.shape[:-2] != mva.shape[:-2] and prod.shape != mva.shape:
            raise Mismatch("value", f"{self.describe(s)}: L transpose(L) is not the matrix: {e}", i)
        m = true_structure(L)
        if m:
            raise Mismatch("structure", f"{self.describe(s)}: {m}", i)
        if kindof(L) in ("LowerTriangular", "Diagonal") and self.m.mv.get(i) is not None:
            return
        self.taint.add(i)

    def check_value(self, s, o, how):
        i = s["i"]
        mv, tol, sc = self.m.mv[i], self.m.tol[i], self.m.scale[i]
        if s["op"] == "root":
            tol = max(tol, 1e-5)
        if how == 1:
            v = absval(o)
        else:
            try:
                v = result_value(o, self.x.B)
            except Exception as e:
                # Some combinations have no dense form; newly built ones then have none
                # either.
                try:
                    result_value(clone(o, self.x.M), self.x.B)
                except Exception:
                    return self.check_value(s, o, 1)
                raise Mismatch("dense-fails", f"{self.describe(s)}: converting the result to dense raises {exc_name(e)}: {e}, but not for a newly built equal matrix", i)
        e = close(v, mv, tol, sc)
        if e:
            raise Mismatch("value" if not e.startswith("shape") else "shape", f"{self.describe(s)}: {e}", i)
        m = true_structure(o)
        if m:
            raise Mismatch("structure", f"{self.describe(s)}: {m}", i)
        if kindof(o) in MATRIX_TYPES and how == 2:
            sh = tuple(int(d) for d in self.x.B.shape(o))
            if sh != mv.shape:
                raise Mismatch("shape", f"{self.describe(s)}: reports shape {sh}, not {mv.shape}", i)

    def audit(self, how=(1, 2)):
        """Everything still has the value the model says."""
        for s in self.steps:
            i = s["i"]
            if i not in self.o or i in self.taint:
                continue
            op = OPS[s["op"]]
            if op.cmp in ("none", "str", "twin", "bad", "shape"):
                continue
            if self.m.mv.get(i) is None:
                continue
            if op.cmp == "chol" and kindof(self.o[i]) not in ("LowerTriangular", "Diagonal"):
                continue
            for h in how:
                try:
                    self.check_value(s, self.o[i], h)
                except Mismatch as e:
                    e.sig = "audit-" + e.sig
                    raise

    def describe(self, s):
        a = []
        for j in s["a"]:
            t = kindof(self.o[j]) if j in self.o else "?"
            sh = tuple(self.m.mv[j].shape) if self.m.mv.get(j) is not None else ""
            a.append(f"#{j}:{t}{sh}")
        return f"step {s['i']} {s['op']}({', '.join(a)}{', ' + str(s['p']) if s.get('p') else ''})"


def backward_slice(steps, i):
    """The steps that step `i` needs, and itself."""
    by = {s["i"]: s for s in steps}
    need, out = [i], set()
    while need:
        j = need.pop()
        if j in out or j not in by:
            continue
        out.add(j)
        need.extend(by[j]["a"])
    return [s for s in steps if s["i"] in out]


def exc_name(e):
    return type(e).__name__
