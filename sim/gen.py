"""Seeded generation of programs. Uses only the reference model, never the library, so the
programs a seed stands for do not depend on the code under test."""
import warnings

import numpy as np

import arrays
import ops
from ops import OPS, Skip

MAXV = 1e5


class Slot:
    __slots__ = ("i", "mv", "res", "nt", "depth", "scale", "tol", "_f")

    def __init__(self, i, mv, res, nt, depth, scale, tol):
        self.i, self.mv, self.res, self.nt = i, mv, res, nt
        self.depth, self.scale, self.tol = depth, scale, tol
        self._f = {}

    # Properties of the model value, computed on demand.
    def f(self, name):
        if name not in self._f:
            self._f[name] = bool(getattr(self, "f_" + name)())
        return self._f[name]

    def f_mat(self):
        return self.res in ("mat", "num", "arr") and self.mv is not None and self.mv.ndim >= 2 and self.mv.dtype != bool

    def f_square(self):
        return self.f("mat") and self.mv.shape[-1] == self.mv.shape[-2] and self.mv.size > 0

    def f_inv(self):
        if not self.f("square"):
            return False
        s = np.linalg.svd(ops.f64(self.mv), compute_uv=False)
        return bool((s[..., -1] > 0.02).all() and (s[..., 0] / s[..., -1] < 300).all())

    def f_sym(self):
        return self.f("square") and np.allclose(self.mv, ops.T(self.mv), atol=1e-9 * max(1, self.scale))

    def f_psd(self):
        return self.f("sym") and bool((np.linalg.eigvalsh(ops.f64(self.mv)) > -1e-9 * max(1.0, self.scale)).all())

    def f_pd(self):
        return self.f("psd") and self.f("inv")

    def f_tri(self):
        return self.f("square") and (self.f("lt") or self.f("ut"))

    def f_lt(self):
        return self.f("square") and not np.triu(self.mv, 1).any()

    def f_ut(self):
        return self.f("square") and not np.tril(self.mv, -1).any()

    def f_posdiag(self):
        return self.f("square") and bool((ops.diag_of(self.mv) > 0.02).all())

    def f_nonneg(self):
        return self.f("mat") and bool((self.mv >= 0).all())

    def f_nonzero(self):
        return self.f("mat") and bool((np.abs(self.mv) > 0.01).all())


class G:
    """A program under construction."""

    def __init__(self, r, **o):
        self.r = r
        self.steps = []
        self.slots = {}
        self.n = r.choice([1, 2, 2, 3, 3, 4])
        self.k = r.choice([1, 1, 2, 3])
        self.base = r.choice(o.get("bases", [(), (), (), (2,), (2,), (3,), (2, 3), (1, 2)]))
        self.dt = r.choice(o.get("dts", ["f8"] * 8 + ["f4", "i8"]))
        # Some programs mix data types.
        self.mixed = ["f8", "f8", "f4"] if self.dt == "f8" and r.random() < o.get("mixed", 0.08) else None
        self.colpool = [r.randrange(1, 10**6) for _ in range(r.choice([2, 3, 4]))] + ([0] if r.random() < 0.2 else [])
        self.maxdepth = o.get("maxdepth", 6)
        self.focus = 0.6 if r.random() < o.get("focus", 0.25) else 0
        self.lays = o.get("lays", True)
        self.ro = o.get("ro", r.random() < 0.3)
        self.o = o
        w = dict(WEIGHTS)
        for name in o.get("off", ()):
            w.pop(name, None)
        for name, v in o.get("boost", {}).items():
            if name in w:
                w[name] *= v
        w["gsample"] = o.get("gsample", 0)
        if not w["gsample"]:
            w.pop("gsample")
        # Swarm: every run forgets some operations and favours others.
        for name in list(w):
            x = r.random()
            if x < 0.25 and name not in o.get("keep", ()):
                w.pop(name)
            elif x > 0.85:
                w[name] *= 4
        self.w = w

    # Emission

    def batch(self):
        b = self.base
        x = self.r.random()
        if not b or x < 0.25:
            return ()
        if x < 0.7:
            return b
        b = b[self.r.randrange(len(b)):] if self.r.random() < 0.5 else b
        return tuple(1 if self.r.random() < 0.4 else d for d in b)

    def emit(self, op, args=(), p=None, nt=None):
        """Append a step if the model can do it and stays in the domain. Returns the slot
        or `None`."""
        p = p or {}
        o = OPS[op]
        A = [self.slots[i] for i in args]
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                v = o.model([s.mv for s in A], p)
        except Skip:
            return None
        except (ValueError, IndexError, np.linalg.LinAlgError, TypeError):
            return None
        # Singular or negative values under a root come out as not-a-number.
        if v is not None and not isinstance(v, tuple):
            v = np.asarray(v)
            if v.dtype != bool:
                if v.size and not np.isfinite(v).all():
                    return None
                if v.size and np.abs(v).max() > MAXV:
                    return None
            if v.size > 3000 or v.ndim > 6 or v.size == 0:
                return None
        depth = max([s.depth for s in A], default=-1) + 1
        if depth > self.maxdepth:
            return None
        sc = max([s.scale for s in A], default=0.0)
        if isinstance(v, np.ndarray) and v.size and v.dtype != bool:
            sc = max(sc, float(np.abs(v).max()))
        tol = max([s.tol for s in A], default=1e-6)
        if op == "arr" and p.get("dt") == "f4" or op == "cast" and p["dt"] == "f4" or op == "Zero" and p["dt"] == "f4" or op == "scal" and p.get("t") == "np4":
            tol = 2e-3
        res = o.res
        if o.cmp in ("chol", "twin"):
            if o.cmp == "chol" and nt in ("LowerTriangular", "Diagonal"):
                pass
            else:
                v = None
        i = len(self.steps)
        st = {"i": i, "op": op, "a": list(args)}
        if p:
            st["p"] = p
        self.steps.append(st)
        self.slots[i] = Slot(i, v, res, nt or "?", depth, sc, tol)
        return self.slots[i]

    def arr(self, kind, sh, dt=None):
        r = self.r
        if self.o.get("alias") and r.random() < self.o["alias"]:
            c = [s for s in self.slots.values() if s.res == "arr" and s.mv.shape == tuple(sh) and s.nt == kind]
            if c:
                ts = ["same"] + (["T"] if kind == "pd" else ["rev"] if kind in ("grid", "vgrid", "vpos", "pos") else [])
                return self.emit("view", [r.choice(c).i], {"t": r.choice(ts)}, nt=kind)
        spec = {"k": kind, "s": r.randrange(1 << 30), "sh": list(sh), "dt": dt or self.dt}
        if self.dt == "i8" and dt is None and r.random() < 0.3:
            spec["dt"] = "f8"
        if self.mixed and dt is None:
            spec["dt"] = r.choice(self.mixed)
        if self.lays and r.random() < 0.3:
            spec["lay"] = r.randrange(4)
        if self.ro and r.random() < 0.5:
            spec["ro"] = True
        return self.emit("arr", (), spec, nt=kind)

    def cols(self, batch, m, r):
        """A factor whose columns come from the pool, varying between batch elements."""
        nb = int(np.prod(batch)) if batch else 1
        R = self.r
        row = [R.choice(self.colpool) for _ in range(r)] if R.random() < 0.15 else None
        if row is None:
            pool = [c for c in self.colpool]
            R.shuffle(pool)
            while len(pool) < r:
                pool.append(R.randrange(1, 10**6))
            row = pool[:r]
        cs = []
        for b in range(nb):
            rb = list(row)
            if b and R.random() < 0.5:
                for j in range(r):
                    if R.random() < 0.5:
                        rb[j] = R.choice(self.colpool + [R.randrange(1, 10**6)])
            cs.append(rb)
        if nb > 1 and R.random() < 0.3:
            R.shuffle(cs)
        spec = {"k": "cols", "s": 0, "sh": list(batch) + [m, r], "cs": cs, "dt": R.choice(self.mixed) if self.mixed else self.dt}
        if self.lays and R.random() < 0.2:
            spec["lay"] = R.randrange(4)
        if self.ro and R.random() < 0.5:
            spec["ro"] = True
        return self.emit("arr", (), spec)

    # Matrices

    def dim(self):
        return self.r.choice([self.n] * 5 + [self.k, self.k, 1])

    def matrix(self, kind=None, m=None, n=None, depth=0):
        """Emit the construction of a random matrix. `kind`: 'any', 'sq', 'inv', 'pd', 'psd'."""
        r = self.r
        kind = kind or r.choices(["any", "sq", "inv", "pd", "psd"], [3, 2, 2, 4, 1])[0]
        if m is None:
            m = self.dim() if kind == "any" else self.n
        if n is None:
            n = self.dim() if kind == "any" else m
        if kind != "any":
            n = m
        typ = {
            "any": ["Dense"] * 3 + ["Const", "Zero"] + ["LowRank"] * 3 + ["Kron", "Tiled"],
            "sq": ["Dense", "Diag", "Diag", "Const", "Zero", "LT", "UT", "LowRank", "LowRank", "Woodbury", "Woodbury", "Kron"],
            "inv": ["Dense", "Diag", "LT", "UT", "Woodbury", "Kron"],
            "pd": ["Dense", "Dense", "Diag", "Diag", "Woodbury", "Woodbury", "Woodbury", "Kron", "Kron"],
            "psd": ["Const", "LowRank", "LowRank", "Zero", "Kron"],
        }[kind]
        if depth > 1:
            typ = [t for t in typ if t in ("Dense", "Diag", "LT", "UT", "Const", "LowRank")] or ["Dense"]
        t = r.choice(typ)
        return getattr(self, "m_" + t)(kind, m, n, depth)

    def m_Dense(self, kind, m, n, d):
        k = {"any": ["grid", "sparse", "pos"], "sq": ["grid", "sparse", "pos"], "inv": ["inv"], "pd": ["pd"], "psd": ["psd"]}[kind]
        a = self.arr(self.r.choice(k), self.batch() + (m, n))
        return a and self.emit("Dense", [a.i], nt="Dense")

    def m_Diag(self, kind, m, n, d):
        k = {"any": ["vgrid", "vsparse"], "sq": ["vgrid", "vsparse"], "inv": ["vgrid"], "pd": ["vpos"], "psd": ["vpos"]}[kind]
        a = self.arr(self.r.choice(k), self.batch() + (m,))
        return a and self.emit("Diag", [a.i], nt="Diagonal")

    def m_LT(self, kind, m, n, d):
        a = self.arr(self.r.choice(["lt", "ltp"]), self.batch() + (m, m))
        return a and self.emit("LT", [a.i], nt="LowerTriangular")

    def m_UT(self, kind, m, n, d):
        a = self.arr(self.r.choice(["ut", "utp"]), self.batch() + (m, m))
        return a and self.emit("UT", [a.i], nt="UpperTriangular")

    def m_Const(self, kind, m, n, d):
        r = self.r
        b = self.batch()
        if r.random() < 0.4:
            c = self.emit("scal", (), {"v": r.choice([0.5, 1, 2, 3] if kind in ("pd", "psd") else [-1.5, 1, 2, 0.5]), "t": r.choice(["float", "np", "int"])})
        else:
            c = self.arr("vpos" if kind in ("pd", "psd") else "vgrid", b)
        if c is None:
            return None
        full = r.random() < 0.3
        return self.emit("Const", [c.i], {"sh": (list(self.batch()) if full else []) + [m, n]}, nt="Constant")

    def m_Zero(self, kind, m, n, d):
        dt = self.r.choice(self.mixed + ["i8"]) if self.mixed else self.dt
        return self.emit("Zero", (), {"sh": list(self.batch()) + [m, n], "dt": dt}, nt="Zero")

    def factor(self, m, k, d):
        """A factor of a low-rank matrix: usually an array."""
        r = self.r
        f = self.cols(self.batch(), m, k) if r.random() < 0.8 else self.arr("grid", self.batch() + (m, k))
        if f is not None and r.random() < 0.2:
            f = self.emit("Dense", [f.i], nt="Dense")
        return f

    def m_LowRank(self, kind, m, n, d):
        r = self.r
        k = r.choice([1, 1, 2, 2, 3])
        l = self.factor(m, k, d)
        if l is None:
            return None
        args, p = [l.i], {}
        psd = kind in ("pd", "psd")
        if not psd and (m != n or r.random() < 0.5):
            q = k
            if r.random() < 0.15:
                q = r.choice([1, 2, 3])
            rt = self.factor(n, q, d)
            if rt is None:
                return None
            args.append(rt.i)
            p["r"] = 1
        else:
            q = k
        if q != k or r.random() < 0.5:
            if q != k:
                mid = self.arr("grid", self.batch() + (k, q))
                if mid is None:
                    return None
                if r.random() < 0.5:
                    mid = self.emit("Dense", [mid.i], nt="Dense")
            elif d < 2 and r.random() < 0.7:
                mid = self.matrix("pd" if psd else r.choice(["inv", "sq", "pd"]), k, k, d + 2)
            else:
                mid = self.arr("pd" if psd else "inv", self.batch() + (k, k))
            if mid is None:
                return None
            args.append(mid.i)
            p["m"] = 1
        return self.emit("LowRank", args, p, nt="LowRank")

    def m_Woodbury(self, kind, m, n, d):
        dk = "pd" if kind in ("pd", "psd") else "inv" if kind == "inv" else self.r.choice(["inv", "sq"])
        D = self.m_Diag(dk, m, m, d)
        L = self.m_LowRank("psd" if kind in ("pd", "psd") else "sq", m, m, d + 1)
        if D is None or L is None or D.mv.shape[-2:] != L.mv.shape[-2:]:
            return None
        if self.r.random() < 0.5:
            return self.emit("Woodbury", [D.i, L.i], nt="Woodbury")
        a = [D.i, L.i]
        if self.r.random() < 0.5:
            a.reverse()
        return self.emit("add", a, {"f": 1}, nt="Woodbury")

    def m_Kron(self, kind, m, n, d):
        sp = [(i, m // i) for i in range(1, m + 1) if m % i == 0]
        sq = [(i, n // i) for i in range(1, n + 1) if n % i == 0]
        r = self.r
        a, b = r.choice(sp)
        if kind == "any":
            e, f = r.choice(sq)
        else:
            e, f = a, b
        if kind != "any" and r.random() < 0.6:
            a, b = r.choice([(2, 2), (2, 1), (1, 2), (2, 3), (3, 2)])
            e, f = a, b
        x = self.matrix(kind, a, e, d + 1)
        y = self.matrix(kind, b, f, d + 1)
        if x is None or y is None:
            return None
        return self.emit("Kron", [x.i, y.i], nt="Kronecker")

    def m_Tiled(self, kind, m, n, d):
        r = self.r
        ax = r.choice([-2, -2, -1])
        nb = r.choice([1, 2, 2, 3])
        args, reps = [], []
        for _ in range(nb):
            dm = r.choice([1, 2, m])
            x = self.matrix("any", *((dm, n) if ax == -2 else (m, dm)), d + 1)
            if x is None:
                return None
            if r.random() < 0.2:
                x = self.emit("dense", [x.i])
            args.append(x.i)
            reps.append(r.choice([1, 1, 2, 3]))
        if r.random() < 0.1 and self.base:
            ax = -3
        p = {"ax": ax, "reps": reps}
        if r.random() < 0.3:
            p["form"] = r.choice([1, 2])
        return self.emit("Tiled", args, p, nt="TiledBlocks")

    # Picking operands

    def pick(self, *flags, pred=None, make=None):
        c = [s for s in self.slots.values() if s.depth <= self.maxdepth and all(s.f(x) for x in flags) and s.res != "arr" and (pred is None or pred(s))]
        if self.r.random() < 0.06:
            c += [s for s in self.slots.values() if s.res == "arr" and all(s.f(x) for x in flags) and (pred is None or pred(s))]
        if not c:
            return None
        # Favour operands with a history and recent results equally.
        return self.r.choice(c) if self.r.random() < 0.6 else c[max(0, len(c) - 1 - self.r.randrange(3))]

    def focused(self):
        """Any operation on new operands of any structures, all equally likely, so that rare
        combinations are reached."""
        r = self.r
        new = []
        for _ in range(r.choice([1, 1, 2])):
            t = r.choice(list(TYPED))
            s = self.typed(t, r.choice(TYPED[t]))
            if s is None:
                return None
            new.append(s)
        if len(new) == 1 and r.random() < 0.2:
            new.append(new[0])
        made = self.slots
        self.slots = {s.i: s for s in new}
        names = [x for x in GENS if x not in ("new", "gc", "chain", "bad", "gsample", *self.o.get("off", ()))]
        out = None
        for _ in range(12):
            s = GENS[r.choice(names)](self)
            if s is not None:
                out = s
                if r.random() < 0.4:
                    break
        made.update(self.slots)
        self.slots = made
        return out

    def typed(self, t, kind):
        n = self.n
        m = n if kind != "any" or self.r.random() < 0.7 else self.dim()
        return getattr(self, "m_" + t)(kind, m, n, 0)

    def step(self):
        if self.focus and self.r.random() < self.focus:
            s = self.focused()
            if s is not None:
                return s
        names = list(self.w)
        for _ in range(12):
            name = self.r.choices(names, [self.w[x] for x in names])[0]
            s = GENS[name](self)
            if s is not None:
                return s
        return None

    def program(self, nmat, nops):
        for _ in range(nmat):
            self.matrix()
        k = 0
        while k < nops:
            if self.step() is None:
                if self.matrix() is None:
                    k += 1
            k += 1
        return self.steps


TYPED = {"Dense": ["any", "inv", "pd"], "Diag": ["sq", "inv", "pd"], "LT": ["inv"], "UT": ["inv"], "Const": ["any", "psd"], "Zero": ["any"],
         "LowRank": ["any", "psd"], "Woodbury": ["inv", "pd"], "Kron": ["any", "inv", "pd", "psd"], "Tiled": ["any"]}

# Generators of single operations --------------------------------------------------------

GENS = {}
WEIGHTS = {}


def gen(name, w=1.0):
    def dec(f):
        GENS[name] = f
        WEIGHTS[name] = w
        return f

    return dec


def unary(name, flags=("mat",), w=1.0, p=None, keepnt=False):
    def f(g):
        s = g.pick(*flags)
        if s is None:
            return None
        pp = p(g, s) if p else {}
        if pp is None:
            return None
        return g.emit(name, [s.i], pp)

    gen(name, w)(f)


def _f(g, s):
    return {"f": g.r.randrange(2)}


@gen("new", 0.8)
def _(g):
    return g.matrix()


unary("neg", w=0.8, p=_f)
unary("abs", w=0.4)
unary("sqrt", ("mat", "nonneg"), 0.4)
unary("pow", w=0.4, p=lambda g, s: {"e": g.r.choice([1, 2, 2, 3] + ([0.5] if s.f("nonneg") else []) + ([-1] if s.f("nonzero") and s.mv.dtype.kind == "f" else [])), "f": g.r.randrange(2)})
unary("T", w=1.5, p=_f)
unary("dense", w=2)
unary("to_numpy", w=0.2)
unary("diag", w=1, p=_f)
unary("diag_extract", w=0.2)
unary("trace", ("square",), 0.6)
unary("isnan", w=0.2)
unary("uprank", w=0.1)
unary("eye", ("square",), 0.3)
unary("zeros", w=0.3)
unary("ones", w=0.3)
unary("squeeze", w=0.2, p=_f)
unary("flatten", w=0.2)
unary("str", w=0.2)
unary("repr", w=0.3)
unary("shape", w=0.2, p=_f)
unary("dtype", w=0.2)
unary("chol", ("pd",), 3)
GENS["chol"] = lambda g: (
    (lambda s: s and g.emit("chol", [s.i], nt={"Dense": "LowerTriangular", "Woodbury": "LowerTriangular", "Diagonal": "Diagonal"}.get(s.nt)))(
        (g.r.random() < 0.8 and g.pick("pd")) or g.pick("psd", pred=lambda s: s.nt in ("Constant", "LowRank", "Zero"))
    )
)
GENS["root"] = lambda g: (lambda s: s and g.emit("root", [s.i]))(g.pick("pd") if g.r.random() < 0.8 else g.pick("psd"))
WEIGHTS["root"] = 0.7
unary("inv", ("inv",), 2)
unary("pd_inv", ("pd",), 2.5)
unary("DiagM", ("square",), 0.3)


def _wbpred(s):
    return s.nt == "Woodbury" and s.f("inv")


@gen("schur", 1.0)
def _(g):
    s = g.pick("pd", pred=_wbpred)
    return s and g.emit(g.r.choice(["schur", "pd_schur"]), [s.i])


@gen("logdet", 1.5)
def _(g):
    s = g.pick("pd") if g.r.random() < 0.8 else g.pick("tri", "posdiag")
    return s and g.emit("logdet", [s.i])


def _ax(g, s):
    return g.r.choice([None, -1, -2, -1, -2] + list(range(-s.mv.ndim, s.mv.ndim)))


unary("sum", w=1.2, p=lambda g, s: {"ax": _ax(g, s)})
unary("mean", w=0.4, p=lambda g, s: {"ax": _ax(g, s)})


@gen("reshape", 0.3)
def _(g):
    s = g.pick("mat")
    if s is None:
        return None
    n = s.mv.size
    sh = g.r.choice([[-1], [n], [1, n], [n, 1], [-1, s.mv.shape[-1]], list(s.mv.shape)])
    return g.emit("reshape", [s.i], {"sh": sh, "f": g.r.randrange(3)})


@gen("getitem", 0.7)
def _(g):
    s = g.pick("mat")
    if s is None:
        return None
    r = g.r
    ix = []
    for d in s.mv.shape[: r.randrange(1, s.mv.ndim + 1)]:
        t = r.choice("isse")
        if t == "i":
            ix.append(["i", r.randrange(-d, d)])
        elif t == "s":
            ix.append(["s", r.choice([None, 0, 1]), r.choice([None, d]), r.choice([None, 1, 2, -1] if True else [])])
            if ix[-1][3] == -1:
                ix[-1][1:3] = [None, None]
        else:
            ix.append(["s", None, None, None])
    if r.random() < 0.3:
        ix = [["e"]] + ix[-2:]
    if r.random() < 0.15 and s.mv.shape[0]:
        ix = [["l", [r.randrange(s.mv.shape[0]) for _ in range(2)]]]
    return g.emit("getitem", [s.i], {"ix": ix})


def _indices(g, d, sortd=False):
    r = g.r
    if r.random() < 0.4:
        v = [r.random() < 0.6 for _ in range(d)]
        if not any(v):
            v[r.randrange(d)] = True
        f = r.choice("la" if True else "lta")
        # A list of Booleans is a mask for LAB only as an array for tuples; keep lists and arrays.
        return {"v": v, "f": f}
    v = [r.randrange(d) for _ in range(r.choice([1, 2, 3]))]
    if sortd:
        v = sorted(set(v))
    if r.random() < 0.3:
        # The same rows or columns, counted from the end.
        v = [i - d if r.random() < 0.5 else i for i in v]
    return {"v": v, "f": r.choice("lta")}


@gen("take", 1.0)
def _(g):
    s = g.pick("mat")
    if s is None:
        return None
    ax = g.r.choice([-2, -1, -2, -1] + list(range(-s.mv.ndim, s.mv.ndim)))
    p = _indices(g, s.mv.shape[ax])
    if ax == -2 and g.r.random() < 0.3:
        return g.emit("take", [s.i], p)
    p["ax"] = ax
    return g.emit("take", [s.i], p)


@gen("submatrix", 0.8)
def _(g):
    s = g.pick("square")
    return s and g.emit("submatrix", [s.i], _indices(g, s.mv.shape[-1], sortd=g.r.random() >= g.o.get("dups", 0)))


@gen("tile", 0.4)
def _(g):
    s = g.pick("mat")
    return s and g.emit("tile", [s.i], {"reps": [g.r.choice([1, 1, 2]) for _ in s.mv.shape]})


@gen("bto", 0.5)
def _(g):
    s = g.pick("mat")
    if s is None:
        return None
    sh = list(g.base if g.r.random() < 0.7 else s.mv.shape[:-2]) + list(s.mv.shape[-2:])
    for j in (-1, -2):
        if sh[j] == 1 and g.r.random() < 0.5:
            sh[j] = g.n
    return g.emit("bto", [s.i], {"sh": sh})


@gen("bbto", 0.6)
def _(g):
    s = g.pick("mat")
    return s and g.emit("bbto", [s.i], {"b": list(g.base)})


@gen("cast", 0.4)
def _(g):
    s = g.pick("mat")
    if s is None:
        return None
    dts = ["f8", "f8", "f4"]
    if s.mv.dtype.kind == "i":
        dts.append("i8")
    return g.emit("cast", [s.i], {"dt": g.r.choice(dts)})


def _several(g, name, ns, p=None):
    n = g.r.choice(ns)
    if g.r.random() < 0.35:
        # All of one structure.
        t = g.r.choice(list(TYPED) + ["Zero", "Zero", "Diag"])
        xs = [g.typed(t, g.r.choice(TYPED[t])) for _ in range(n)]
    else:
        xs = [g.pick("mat") for _ in range(n)]
    return None if None in xs else g.emit(name, [x.i for x in xs], p(n) if p else None)


@gen("bdiag", 0.6)
def _(g):
    return _several(g, "block_diag", [1, 2, 2, 3])


@gen("bdtiled", 0.3)
def _(g):
    return _several(g, "bdtiled", [1, 1, 2], lambda n: {"reps": [g.r.choice([1, 2, 2, 3]) for _ in range(n)]})


@gen("block", 0.5)
def _(g):
    r = g.r
    c = r.choice([1, 2, 2])
    rr = r.choice([1, 2, 2])
    h = [g.dim() for _ in range(rr)]
    w = [g.dim() for _ in range(c)]
    if r.random() < 0.5 and c == rr:
        w = h
    out = []
    for i in range(rr):
        for j in range(c):
            s = g.pick("mat", pred=lambda s: s.mv.shape[-2:] == (h[i], w[j]) and s.res != "arr")
            if s is None or r.random() < 0.4:
                if w is h and i != j and r.random() < 0.7:
                    s = g.m_Zero("any", h[i], w[j], 1)
                elif w is h and i == j and r.random() < 0.6:
                    s = g.m_Diag("sq", h[i], h[i], 1)
                else:
                    s = g.matrix("any", h[i], w[j], 1)
            if s is None:
                return None
            out.append(s.i)
    return g.emit("block", out, {"c": c})


@gen("concat", 0.4)
def _(g):
    a = g.pick("mat")
    if a is None:
        return None
    if g.r.random() < 0.2:
        b = g.typed({"Diagonal": "Diag", "Constant": "Const", "Zero": "Zero", "LowRank": "LowRank", "TiledBlocks": "Tiled", "Kronecker": "Kron"}.get(a.nt, "Dense"), "any")
    else:
        b = g.pick("mat", pred=lambda s: s.mv.ndim == a.mv.ndim and (s.nt == a.nt or g.r.random() < 0.5))
    return b and g.emit("concat", [a.i, b.i], {"ax": g.r.choice([-1, -2, -2] + list(range(a.mv.ndim)))})


def _compat(a):
    def pred(s):
        try:
            np.broadcast_shapes(a.mv.shape, s.mv.shape)
            return True
        except ValueError:
            return False

    return pred


def elementwise(name, w):
    @gen(name, w)
    def f(g):
        a = g.pick("mat")
        if a is None:
            return None
        x = g.r.random()
        if x < 0.12:
            b = g.emit("scal", (), {"v": g.r.choice([0, 1, 2, -1.5, 0.5]) if name != "div" else g.r.choice([1, 2, -0.5]), "t": g.r.choice(["float", "np", "0d", "float", "int"])})
        elif x < 0.3:
            b = g.matrix(g.r.choice(["any", "sq", "pd"]), *a.mv.shape[-2:]) if a.f("square") else g.matrix("any", *a.mv.shape[-2:])
        elif name == "div":
            b = g.pick("mat", "nonzero", pred=_compat(a))
        elif x < 0.65:
            b = g.pick("mat", pred=lambda s: s.mv.shape[-2:] == a.mv.shape[-2:] and _compat(a)(s))
        else:
            b = g.pick("mat", pred=_compat(a))
        if b is None:
            return None
        if name == "div" and not (np.abs(b.mv) > 0.01).all():
            return None
        ab = [a.i, b.i]
        if g.r.random() < 0.5 and name != "div":
            ab.reverse()
        return g.emit(name, ab, {"f": g.r.randrange(2)})


elementwise("add", 3.5)
elementwise("sub", 2.0)
elementwise("mul", 2.0)
elementwise("div", 0.5)


def _mmpair(g, flags=("mat",)):
    r = g.r
    a = g.pick(*flags)
    if a is None:
        return None
    ta, tb = (r.random() < 0.3, r.random() < 0.3)
    inner = a.mv.shape[-2] if ta else a.mv.shape[-1]
    b = g.pick("mat", pred=lambda s: s.mv.shape[-1 if tb else -2] == inner)
    if b is None or r.random() < 0.1:
        b = g.matrix("any", *((g.dim(), inner) if tb else (inner, g.dim())))
    if b is None:
        return None
    p = {}
    if ta:
        p["ta"] = 1
    if tb:
        p["tb"] = 1
    if r.random() < 0.3:
        p["f"] = 1
    return a, b, p


@gen("mm", 3.5)
def _(g):
    x = _mmpair(g)
    return x and g.emit("mm", [x[0].i, x[1].i], x[2])


@gen("mm3", 0.7)
def _(g):
    x = _mmpair(g)
    if x is None:
        return None
    a, b, p = x
    p.pop("f", None)
    inner = b.mv.shape[-2] if p.get("tb") else b.mv.shape[-1]
    c = g.pick("mat", pred=lambda s: s.mv.shape[-2] == inner)
    return c and g.emit("mm3", [a.i, b.i, c.i], p)


@gen("mmd", 0.7)
def _(g):
    r = g.r
    a = g.pick("mat")
    if a is None:
        return None
    ta, tb = r.random() < 0.5, r.random() < 0.5
    sa = a.mv.shape[:-3:-1][::-1]
    ar, ac = (sa[1], sa[0]) if ta else sa
    b = g.pick("mat", pred=lambda s: (s.mv.shape[-1], s.mv.shape[-2]) == ((ar, ac) if not tb else (ac, ar)))
    p = {}
    if ta:
        p["ta"] = 1
    if tb:
        p["tb"] = 1
    return b and g.emit("mmd", [a.i, b.i], p)


@gen("kron", 0.5)
def _(g):
    a, b = g.pick("mat"), g.pick("mat")
    if a is None or b is None or a.mv.shape[-1] * b.mv.shape[-1] > 8 or a.mv.shape[-2] * b.mv.shape[-2] > 8:
        return None
    return g.emit("kron", [a.i, b.i], nt="Kronecker" if a.nt != "Zero" and b.nt != "Zero" and not (a.nt == b.nt == "Constant") else None)


def _rhs(g, n):
    b = g.pick("mat", pred=lambda s: s.mv.shape[-2] == n)
    if b is None or g.r.random() < 0.3:
        b = g.matrix("any", n, g.dim())
    return b


@gen("solve", 1.5)
def _(g):
    a = g.pick("inv") if g.r.random() < 0.6 else g.pick("inv", "tri")
    if a is None:
        return None
    b = _rhs(g, a.mv.shape[-1])
    return b and g.emit("solve", [a.i, b.i])


@gen("trisolve", 0.5)
def _(g):
    a = g.pick("inv", "tri")
    if a is None:
        return None
    lo = 1 if a.f("lt") else 0
    b = _rhs(g, a.mv.shape[-1])
    return b and g.emit("trisolve", [a.i, b.i], {"lo": lo})


@gen("cholsolve", 0.5)
def _(g):
    a = g.pick("inv", "lt")
    if a is None:
        return None
    b = _rhs(g, a.mv.shape[-1])
    return b and g.emit("cholsolve", [a.i, b.i])


def _iqfgen(name, diag):
    @gen(name, 1.5 if not diag else 1.2)
    def f(g):
        a = g.pick("pd")
        if a is None:
            return None
        b = _rhs(g, a.mv.shape[-1])
        if b is None:
            return None
        if g.r.random() < 0.4:
            return g.emit(name, [a.i, b.i])
        c = g.pick("mat", pred=lambda s: s.mv.shape[-2] == a.mv.shape[-1] and (not diag or s.mv.shape[-1] == b.mv.shape[-1]))
        if c is None:
            return None
        return g.emit(name, [a.i, b.i, c.i])


_iqfgen("iqf", False)
_iqfgen("iqf_diag", True)


@gen("ratio", 1.2)
def _(g):
    b = g.pick("pd")
    if b is None:
        return None
    a = g.pick("pd", pred=lambda s: s.mv.shape[-1] == b.mv.shape[-1])
    return a and g.emit("ratio", [a.i, b.i])


def _on(name, **p):
    def f(g, s):
        return g.emit(name, [s.i], {k: (v(g, s) if callable(v) else v) for k, v in p.items()})

    return f


def _on2(name, first=True):
    def f(g, s):
        b = _rhs(g, s.mv.shape[-1]) if name in ("solve", "iqf", "iqf_diag") else g.pick("mat", pred=_compat(s))
        if b is None:
            return None
        return g.emit(name, [s.i, b.i] if first else [b.i, s.i])

    return f


# Operations that may keep something on a matrix, or read what is kept.
FILLS = [("mat", "dense", _on("dense")), ("pd", "chol", _on("chol")), ("inv", "inv", _on("inv")), ("pd", "pd_inv", _on("pd_inv")),
         ("pd", "logdet", _on("logdet")), ("inv", "solve", _on2("solve")), ("pd", "iqf", _on2("iqf")), ("mat", "diag", _on("diag")),
         ("square", "trace", _on("trace")), ("mat", "sum", _on("sum", ax=lambda g, s: g.r.choice([None, -1, -2]))),
         ("pd", "iqf_diag", _on2("iqf_diag")), ("mat", "T", _on("T")), ("mat", "repr", _on("repr"))]
DERIVES = [("mat", "T", _on("T")), ("mat", "neg", _on("neg")), ("mat", "cast", _on("cast", dt="f8")), ("mat", "bbto", _on("bbto", b=lambda g, s: list(g.base))),
           ("mat", "mul", lambda g, s: _scaled(g, s)), ("mat", "add", lambda g, s: _shifted(g, s)), ("mat", "take", lambda g, s: _taken(g, s)),
           ("square", "submatrix", lambda g, s: g.emit("submatrix", [s.i], _indices(g, s.mv.shape[-1], sortd=True))), ("mat", "mm", _on2("mm")),
           ("inv", "inv", _on("inv")), ("pd", "pd_inv", _on("pd_inv")), ("mat", "kron", lambda g, s: GENS["kron"](g))]


def _scaled(g, s):
    r = g.r
    x = r.random()
    if x < 0.4:
        c = g.emit("scal", (), {"v": r.choice([2, 0.5, 1, -1]), "t": r.choice(["float", "np", "0d", "int"])})
    else:
        c = g.m_Const("pd", 1, 1, 1) if x < 0.7 else g.m_Const("pd", *s.mv.shape[-2:], 1)
    if c is None:
        return None
    ab = [c.i, s.i]
    if r.random() < 0.5:
        ab.reverse()
    return g.emit("mul", ab)


def _shifted(g, s):
    c = g.m_Zero("any", *s.mv.shape[-2:], 1) if g.r.random() < 0.4 or not s.f("square") else g.m_Diag("pd", s.mv.shape[-1], s.mv.shape[-1], 1)
    if c is None:
        return None
    ab = [c.i, s.i]
    if g.r.random() < 0.5:
        ab.reverse()
    return g.emit("add", ab)


def _taken(g, s):
    ax = g.r.choice(list(range(-s.mv.ndim, s.mv.ndim)))
    return g.emit("take", [s.i], {**_indices(g, s.mv.shape[ax]), "ax": ax})


@gen("chain", 1.5)
def _(g):
    """Use a matrix, derive another one from it, and put the same questions to that."""
    r = g.r

    def some(table, s, ask=None):
        t = [x for x in table if s.f(x[0]) and (ask is None or x[1] in ask)]
        if not t:
            return None, None
        f, name, do = r.choice(t)
        if name not in g.w and name not in ("add", "mul", "take", "submatrix", "neg", "T"):
            return None, None
        return name, do(g, s)

    s = g.pick("mat", pred=lambda s: s.nt in ("Woodbury", "LowRank", "Kronecker", "Diagonal", "Constant", "Zero", "TiledBlocks")) if r.random() < 0.7 else g.pick("mat")
    if s is None:
        return None
    asked, out = [], None
    for _ in range(r.choice([1, 1, 2])):
        n, o = some(FILLS, s)
        if o is not None:
            asked.append(n)
            out = o
    if out is not None and out.mv is not None and out.f("mat") and r.random() < 0.3:
        # Go on with the answer.
        s = out
    for _ in range(r.choice([1, 1, 1, 2])):
        n, d = some(DERIVES, s)
        if d is None or d.mv is None:
            break
        for _ in range(r.choice([1, 2])):
            n, o = some(FILLS, d, asked if r.random() < 0.5 else None)
            out = o or out
        out = out or d
        s = d
    return out


@gen("bad", 0.5)
def _(g):
    a = g.pick("mat")
    return a and g.emit("bad", [a.i], {"w": g.r.randrange(8)})


@gen("gc", 0.15)
def _(g):
    return g.emit("gc")


@gen("sample", 0.6)
def _(g):
    a = g.pick("pd") if g.r.random() < 0.8 else g.pick("psd", pred=lambda s: s.nt in ("Constant", "LowRank"))
    return a and g.emit("sample", [a.i], {"seed": g.r.randrange(1000), "n": g.r.choice([1, 1, 2, 3])})


@gen("gsample", 0.0)
def _(g):
    a = g.pick("pd")
    return a and g.emit("gsample", [a.i], {"n": g.r.choice([1, 2])})
