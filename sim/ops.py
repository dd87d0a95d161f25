"""The operations the simulator can perform: how to call the library, and what the same
computation is on plain dense arrays (the reference model, NumPy only).

Every operation is `call(X, args, p)` against `model(args, p)`. `X` carries the library
(`X.B`, `X.M`, `X.np`) and, in JAX runs, how to make arrays. Parameters `p` are JSON.
"""
import gc
import operator

import numpy as np

import arrays

OPS = {}


class Op:
    def __init__(self, name, call, model, res="num", cmp="val", draws=False):
        self.name, self.call, self.model = name, call, model
        self.res = res  # 'mat': a matrix object; 'num': anything numeric; 'obj': other.
        self.cmp = cmp  # 'val', 'chol', 'root', 'none', 'str'.
        self.draws = draws


class Skip(Exception):
    """The model has no answer for these arguments: not a sensible call."""


def op(name, model, res="num", cmp="val", draws=False):
    def dec(f):
        OPS[name] = Op(name, f, model, res, cmp, draws)
        return f

    return dec


def mv_(x):
    return np.asarray(x)


def T(a):
    return np.swapaxes(a, -1, -2)


def diag_of(a):
    return np.diagonal(a, axis1=-2, axis2=-1)


def diag_mat(v):
    v = np.asarray(v)
    return v[..., None] * np.eye(v.shape[-1], dtype=v.dtype)


def kron(a, b):
    r = np.einsum("...ij,...kl->...ikjl", a, b)
    return r.reshape(r.shape[:-4] + (r.shape[-4] * r.shape[-3], r.shape[-2] * r.shape[-1]))


def bc_batch(*xs):
    batch = np.broadcast_shapes(*(x.shape[:-2] for x in xs))
    return [np.broadcast_to(x, batch + x.shape[-2:]) for x in xs]


def f64(x):
    x = np.asarray(x)
    return x.astype(np.float64) if x.dtype != np.float64 else x


def inv(a):
    return np.linalg.inv(f64(a))


def solve(a, b):
    a, b = bc_batch(f64(a), f64(b))
    return np.linalg.solve(a, b)


# Raw data and constructors --------------------------------------------------------------

op("arr", lambda a, p: arrays.make(p), res="arr")(lambda X, a, p: X.arr(arrays.make({**p, "ro": True} if X.force_ro else p), p.get("np")))


def _view(a, p):
    return {"same": lambda x: x[...], "T": T, "rev": lambda x: x[..., ::-1]}[p["t"]](a[0])


op("view", _view, res="arr")(lambda X, a, p: _view(a, p))


def _scal(p):
    v, t = p["v"], p.get("t", "float")
    return {"int": int, "float": float, "np": np.float64, "np4": np.float32,
            "0d": lambda x: np.array(float(x)), "npi": np.int64}[t](v)


op("scal", lambda a, p: np.asarray(_scal(p)), res="sc")(lambda X, a, p: _scal(p))

op("Dense", lambda a, p: mv_(a[0]), res="mat")(lambda X, a, p: X.M.Dense(a[0]))
op("Diag", lambda a, p: diag_mat(a[0]), res="mat")(lambda X, a, p: X.M.Diagonal(a[0]))
op("DiagM", lambda a, p: diag_mat(diag_of(a[0])), res="mat")(lambda X, a, p: X.M.Diagonal(X.mat(a[0])))
op("LT", lambda a, p: np.tril(a[0]), res="mat")(lambda X, a, p: X.M.LowerTriangular(a[0]))
op("UT", lambda a, p: np.triu(a[0]), res="mat")(lambda X, a, p: X.M.UpperTriangular(a[0]))


def _const(a, p):
    c = np.asarray(a[0])
    batch = np.broadcast_shapes(c.shape, tuple(p["sh"][:-2]))
    return np.broadcast_to(c[..., None, None], batch + tuple(p["sh"][-2:]))


op("Const", _const, res="mat")(lambda X, a, p: X.M.Constant(a[0], *p["sh"]))
op("Zero", lambda a, p: np.zeros(p["sh"], arrays.DT[p["dt"]]), res="mat")(
    lambda X, a, p: X.M.Zero(X.dt(p["dt"]), *p["sh"])
)


def _lr_args(a, p):
    it = iter(a)
    left = next(it)
    right = next(it) if p.get("r") else None
    middle = next(it) if p.get("m") else None
    return left, right, middle


def _lr(a, p):
    left, right, middle = _lr_args(a, p)
    if right is None:
        right = left
    if middle is None:
        return np.matmul(left, T(right))
    return np.matmul(np.matmul(left, middle), T(right))


op("LowRank", _lr, res="mat")(lambda X, a, p: X.M.LowRank(*_lr_args(a, p)))


def _wb(a, p):
    if a[0].shape[-2:] != a[1].shape[-2:]:
        raise Skip
    return a[0] + a[1]


op("Woodbury", _wb, res="mat")(lambda X, a, p: X.M.Woodbury(*a))
op("Kron", lambda a, p: kron(*a), res="mat")(lambda X, a, p: X.M.Kronecker(*a))


def _tiled(a, p):
    rank = max(x.ndim for x in a)
    ax = p["ax"] if p["ax"] < 0 else p["ax"] - rank
    xs = [x.reshape((1,) * (rank - x.ndim) + x.shape) for x in a]
    xs = [np.tile(x, [r if i == rank + ax else 1 for i in range(rank)]) for x, r in zip(xs, p["reps"])]
    tgt = np.broadcast_shapes(*[x.shape[:rank + ax] + (1,) + x.shape[rank + ax:][1:] for x in xs])
    if ax != -1 and any(x.shape[-1] != xs[0].shape[-1] for x in xs):
        raise Skip
    if ax != -2 and any(x.shape[-2] != xs[0].shape[-2] for x in xs):
        raise Skip
    xs = [np.broadcast_to(x, tgt[:rank + ax] + (x.shape[ax],) + tgt[rank + ax:][1:]) for x in xs]
    return np.concatenate(xs, axis=ax)


@op("Tiled", _tiled, res="mat")
def _(X, a, p):
    if p.get("form") == 1 and len(a) == 1:
        return X.M.TiledBlocks(a[0], p["reps"][0], axis=p["ax"])
    if p.get("form") == 2 and all(r == 1 for r in p["reps"]):
        return X.M.TiledBlocks(*a, axis=p["ax"])
    return X.M.TiledBlocks(*zip(a, p["reps"]), axis=p["ax"])


# Unary ----------------------------------------------------------------------------------

op("neg", lambda a, p: -a[0], res="mat")(lambda X, a, p: -a[0] if p.get("f") and infix(X, a) else X.B.negative(a[0]))
op("abs", lambda a, p: np.abs(a[0]), res="mat")(lambda X, a, p: X.B.abs(a[0]))
op("sqrt", lambda a, p: np.sqrt(a[0]), res="mat")(lambda X, a, p: X.B.sqrt(a[0]))
op("pow", lambda a, p: f64(a[0]) ** p["e"], res="mat")(
    lambda X, a, p: a[0] ** p["e"] if p.get("f") and infix(X, a) else X.B.power(a[0], p["e"])
)
op("T", lambda a, p: T(a[0]), res="mat")(lambda X, a, p: X.mat(a[0]).T if p.get("f") else X.B.transpose(X.mat(a[0])))
op("dense", lambda a, p: mv_(a[0]))(lambda X, a, p: X.B.dense(a[0]))
op("to_numpy", lambda a, p: mv_(a[0]))(lambda X, a, p: X.B.to_numpy(a[0]))
op("diag", lambda a, p: diag_of(a[0]))(
    lambda X, a, p: X.mat(a[0]).diagonal() if p.get("f") else X.B.diag(X.mat(a[0]))
)
op("diag_extract", lambda a, p: diag_of(a[0]))(lambda X, a, p: X.B.diag_extract(X.mat(a[0])))
op("trace", lambda a, p: diag_of(a[0]).sum(-1))(lambda X, a, p: X.B.trace(X.mat(a[0])))


def _sum_args(X, a, p):
    return {} if p.get("ax") is None else {"axis": p["ax"]}


op("sum", lambda a, p: np.sum(a[0], axis=p.get("ax")))(
    lambda X, a, p: X.B.sum(X.mat(a[0]), **_sum_args(X, a, p))
)
op("mean", lambda a, p: np.mean(a[0], axis=p.get("ax")))(
    lambda X, a, p: X.B.mean(X.mat(a[0]), **_sum_args(X, a, p))
)


def _sq(a):
    if a.shape[-1] != a.shape[-2]:
        raise Skip
    return a


op("chol", lambda a, p: np.linalg.cholesky(f64(a[0])), res="mat", cmp="chol")(
    lambda X, a, p: X.B.cholesky(X.mat(a[0]))
)


def _root(a, p):
    w, v = np.linalg.eigh(f64(a[0]))
    return np.matmul(v * np.sqrt(np.maximum(w, 0))[..., None, :], T(v))


op("root", _root, res="mat", cmp="root")(lambda X, a, p: X.B.root(X.mat(a[0])))
op("inv", lambda a, p: inv(_sq(a[0])), res="mat")(lambda X, a, p: X.B.inv(X.mat(a[0])))
op("pd_inv", lambda a, p: inv(_sq(a[0])), res="mat")(lambda X, a, p: X.B.pd_inv(X.mat(a[0])))
op("logdet", lambda a, p: np.linalg.slogdet(f64(_sq(a[0])))[1])(lambda X, a, p: X.B.logdet(X.mat(a[0])))
op("schur", lambda a, p: None, res="mat", cmp="twin")(lambda X, a, p: X.B.schur(a[0]))
op("pd_schur", lambda a, p: None, res="mat", cmp="twin")(lambda X, a, p: X.B.pd_schur(a[0]))
op("eye", lambda a, p: np.eye(_sq(a[0]).shape[-1]), res="mat")(lambda X, a, p: X.B.eye(X.mat(a[0])))
op("zeros", lambda a, p: np.zeros(a[0].shape), res="mat")(lambda X, a, p: X.B.zeros(X.mat(a[0])))
op("ones", lambda a, p: np.ones(a[0].shape), res="mat")(lambda X, a, p: X.B.ones(X.mat(a[0])))
op("isnan", lambda a, p: np.isnan(f64(a[0])))(lambda X, a, p: X.B.isnan(a[0]))
op("squeeze", lambda a, p: np.squeeze(a[0]))(
    lambda X, a, p: X.mat(a[0]).squeeze() if p.get("f") else X.B.squeeze(a[0])
)
op("reshape", lambda a, p: np.reshape(a[0], p["sh"]))(
    lambda X, a, p: X.mat(a[0]).reshape(*p["sh"]) if p.get("f") == 1
    else X.mat(a[0]).reshape(tuple(p["sh"])) if p.get("f") == 2
    else X.B.reshape(a[0], *p["sh"])
)
op("flatten", lambda a, p: np.reshape(a[0], (-1,)))(lambda X, a, p: X.mat(a[0]).flatten())


def _index(ix):
    out = []
    for e in ix:
        if e[0] == "i":
            out.append(e[1])
        elif e[0] == "s":
            out.append(slice(*e[1:]))
        elif e[0] == "e":
            out.append(Ellipsis)
        elif e[0] == "n":
            out.append(None)
        elif e[0] == "l":
            out.append(np.array(e[1]))
    return tuple(out) if len(out) != 1 else out[0]


op("getitem", lambda a, p: a[0][_index(p["ix"])])(lambda X, a, p: X.mat(a[0])[_index(p["ix"])])


def _ind(X, p):
    v, f = p["v"], p["f"]
    ix = {"l": list, "t": tuple, "a": np.array}[f](v)
    if X.held is not None:
        X.held.append(ix)
    return ix


def _mtake(a, ix, ax):
    return np.compress(ix, a, axis=ax) if len(ix) and isinstance(ix[0], bool) else np.take(a, ix, axis=ax)


op("take", lambda a, p: _mtake(a[0], p["v"], p.get("ax", -2)), res="mat")(
    lambda X, a, p: X.B.take(X.mat(a[0]), _ind(X, p), axis=p["ax"]) if "ax" in p else X.B.take(X.mat(a[0]), _ind(X, p))
)
op("submatrix", lambda a, p: _mtake(_mtake(_sq(a[0]), p["v"], -2), p["v"], -1), res="mat")(
    lambda X, a, p: X.B.submatrix(X.mat(a[0]), _ind(X, p))
)
op("takem", lambda a, p: np.compress(a[1], a[0], axis=p["ax"]), res="mat")(
    lambda X, a, p: X.B.take(X.mat(a[0]), a[1], axis=p["ax"])
)
op("submatm", lambda a, p: np.compress(a[1], np.compress(a[1], _sq(a[0]), axis=-2), axis=-1), res="mat")(
    lambda X, a, p: X.B.submatrix(X.mat(a[0]), a[1])
)
op("tile", lambda a, p: np.tile(a[0], p["reps"]), res="mat")(lambda X, a, p: X.B.tile(X.mat(a[0]), *p["reps"]))
op("bto", lambda a, p: np.broadcast_to(a[0], p["sh"]), res="mat")(
    lambda X, a, p: X.B.broadcast_to(X.mat(a[0]), *p["sh"])
)
op("bbto", lambda a, p: np.broadcast_to(a[0], tuple(p["b"]) + a[0].shape[-2:]), res="mat")(
    lambda X, a, p: X.B.broadcast_batch_to(X.mat(a[0]), *p["b"])
)
op("cast", lambda a, p: mv_(a[0]).astype(arrays.DT[p["dt"]]), res="mat")(
    lambda X, a, p: X.B.cast(X.dt(p["dt"]), X.mat(a[0]))
)
op("str", lambda a, p: None, res="obj", cmp="str")(lambda X, a, p: str(a[0]))
op("repr", lambda a, p: None, res="obj", cmp="str")(lambda X, a, p: repr(a[0]))
op("shape", lambda a, p: a[0].shape, res="obj", cmp="shape")(
    lambda X, a, p: X.mat(a[0]).shape if p.get("f") else X.B.shape(a[0])
)
op("dtype", lambda a, p: None, res="obj", cmp="str")(lambda X, a, p: np.dtype(X.mat(a[0]).dtype).name)
op("uprank", lambda a, p: mv_(a[0]), res="mat")(lambda X, a, p: X.B.uprank(X.mat(a[0])))


def _mbd(a, p):
    xs = bc_batch(*a)
    out = np.zeros(xs[0].shape[:-2] + (sum(x.shape[-2] for x in xs), sum(x.shape[-1] for x in xs)))
    i = j = 0
    for x in xs:
        out[..., i:i + x.shape[-2], j:j + x.shape[-1]] = x
        i += x.shape[-2]
        j += x.shape[-1]
    return out


op("block_diag", _mbd, res="mat")(lambda X, a, p: X.B.block_diag(*a))


def _mbdt(a, p):
    if len({x.shape[-1] for x in a}) != 1:
        raise Skip
    return _mbd([x for x, r in zip(a, p["reps"]) for _ in range(r)], p)


op("bdtiled", _mbdt, res="mat")(lambda X, a, p: X.B.block_diag(X.M.TiledBlocks(*zip(a, p["reps"]))))


def _mblock(a, p):
    xs = bc_batch(*a)
    c = p["c"]
    rows = [np.concatenate(xs[i:i + c], axis=-1) for i in range(0, len(xs), c)]
    return np.concatenate(rows, axis=-2)


@op("block", _mblock, res="mat")
def _(X, a, p):
    rows = [list(a[i:i + p["c"]]) for i in range(0, len(a), p["c"])]
    if X.held is not None:
        X.held.extend(rows)
    return X.B.block(*rows)


op("concat", lambda a, p: np.concatenate(a, axis=p["ax"]), res="mat")(
    lambda X, a, p: X.B.concat(*a, axis=p["ax"])
)

# Binary ---------------------------------------------------------------------------------

_PY = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv}
_LB = {"add": "add", "sub": "subtract", "mul": "multiply", "div": "divide"}
_NP = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide}


def infix(X, a):
    """NumPy takes over operators with an array on the left; that is not the library's."""
    return isinstance(a[0], (X.Abs, int, float)) and not isinstance(a[0], np.generic) or X.backend != "numpy" and isinstance(a[0], X.Abs)


for _n in _PY:
    op(_n, lambda a, p, n=_n: _NP[n](a[0], a[1]), res="mat")(
        lambda X, a, p, n=_n: _PY[n](a[0], a[1]) if p.get("f") and infix(X, a) else getattr(X.B, _LB[n])(a[0], a[1])
    )


def _tr(x, do):
    return T(x) if do else x


op("mm", lambda a, p: np.matmul(_tr(a[0], p.get("ta")), _tr(a[1], p.get("tb"))), res="mat")(
    lambda X, a, p: a[0] @ a[1] if p.get("f") and infix(X, a) and not p.get("ta") and not p.get("tb")
    else X.B.matmul(a[0], a[1], tr_a=bool(p.get("ta")), tr_b=bool(p.get("tb")))
)
op("mm3", lambda a, p: np.matmul(np.matmul(_tr(a[0], p.get("ta")), _tr(a[1], p.get("tb"))), _tr(a[2], p.get("tc"))),
   res="mat")(
    lambda X, a, p: X.B.mm(a[0], a[1], a[2], tr_a=bool(p.get("ta")), tr_b=bool(p.get("tb")), tr_c=bool(p.get("tc")))
)
op("mmd", lambda a, p: diag_of(np.matmul(_tr(a[0], p.get("ta")), _tr(a[1], p.get("tb")))))(
    lambda X, a, p: X.B.matmul_diag(X.mat(a[0]), X.mat(a[1]), tr_a=bool(p.get("ta")), tr_b=bool(p.get("tb")))
)
op("kron", lambda a, p: kron(*a), res="mat")(lambda X, a, p: X.B.kron(X.mat(a[0]), X.mat(a[1])))
op("solve", lambda a, p: solve(_sq(a[0]), a[1]), res="num")(lambda X, a, p: X.B.solve(X.mat(a[0]), a[1]))
op("cholsolve", lambda a, p: solve(np.matmul(_sq(a[0]), T(a[0])), a[1]), res="num")(
    lambda X, a, p: X.B.cholesky_solve(X.mat(a[0]), a[1])
)
op("trisolve", lambda a, p: solve(_sq(a[0]), a[1]), res="num")(
    lambda X, a, p: X.B.triangular_solve(X.mat(a[0]), a[1], lower_a=bool(p["lo"]))
)


def _iqf(a, p):
    c = a[2] if len(a) > 2 else a[1]
    return np.matmul(T(a[1]), solve(_sq(a[0]), c))


op("iqf", _iqf, res="num")(lambda X, a, p: X.B.iqf(*a))
op("iqf_diag", lambda a, p: diag_of(_iqf(a, p)))(lambda X, a, p: X.B.iqf_diag(*a))
op("ratio", lambda a, p: np.trace(solve(_sq(a[1]), _sq(a[0])), axis1=-2, axis2=-1))(
    lambda X, a, p: X.B.ratio(X.mat(a[0]), X.mat(a[1]))
)

# Housekeeping ---------------------------------------------------------------------------


@op("gc", lambda a, p: None, res="obj", cmp="none")
def _(X, a, p):
    gc.collect()


# Computations the model cannot do but that must leave everything else alone.
@op("bad", lambda a, p: None, res="obj", cmp="bad")
def _(X, a, p):
    """A call that cannot succeed."""
    w = p["w"]
    B, M = X.B, X.M
    m = X.mat(a[0])
    r, c = int(B.shape(m)[-2]), int(B.shape(m)[-1])
    if w == 0:
        return B.matmul(m, M.Dense(X.arr(np.ones((c + 1, 2)))))
    if w == 1:
        return B.add(m, M.Dense(X.arr(np.ones((r + 2, c + 3)))))
    if w == 2:
        return B.cholesky(M.Dense(X.arr(-np.eye(2))))
    if w == 3:
        return B.take(m, [[0]], axis=-1)
    if w == 4:
        return B.cholesky(M.Dense(X.arr(np.ones((2, 3)))))
    if w == 5:
        return M.Woodbury(M.Diagonal(X.arr(np.ones(r + 1))), M.LowRank(X.arr(np.ones((r + 3, 1)))))
    if w == 6:
        return B.sum(m, axis=17)
    if w == 7:
        return B.broadcast_to(m, 1, r + 2, c + 3)


SAMPLE = "sample"


@op("sample", lambda a, p: None, cmp="none", draws=True)
def _(X, a, p):
    state = X.random_state(p["seed"])
    return X.B.sample(state, a[0], num=p.get("n", 1))[1]


@op("gsample", lambda a, p: None, cmp="none", draws=True)
def _(X, a, p):
    """Sampling from the process-wide random state."""
    return X.B.sample(a[0], num=p.get("n", 1))


# Events on random states, interpreted by C07.
for _n in ("r_seed", "r_keep", "r_back", "r_use"):
    op(_n, lambda a, p: None, res="obj", cmp="none")(lambda X, a, p: None)
