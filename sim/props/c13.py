"""C13: results do not depend on process configuration or order of first use."""
import warnings

import numpy as np

import arrays
import boot
import engine
import gen
import monitor
import ops
import twin
import world
import zygote
from ops import OPS
from world import Mismatch, absval, kindof, structure

EV = monitor.MON.events
QUICK = 2400
THOROUGH = 60000
RULE = ("one evaluation is one call made in a new process of some configuration and compared with the same call in a process "
        "with a long history; distinct = (operation, operand structures, configuration); non-trivial = the processes differ in hash "
        "seed, in what was used first, or in whether and when JAX was loaded")
ASSUMPTIONS = ["configurations are hash seed, order of imports, point at which JAX is loaded (also within a call) and order of "
               "first use; other interpreters, NumPy or JAX versions are not varied"]
LISTS = ["cfgs", "steps"]
STUBS = "the process environment: hash seed, import order and import time of JAX"
KINDS = {"plain": {}, "hash": {}, "jax-first": {"first": ["jax", "lab.jax"]}, "jax-then": {"then": ["lab.jax"]}, "late": {"then": ["jax"]}}
BASE = {"hash": "0", "modules": ["props.c13", "arrays", "gen", "world", "twin", "monitor"]}


def generate(r, idx, thorough=False):
    g = gen.G(r, off=["gc"], mixed=0.35, boost={"bdiag": 4, "bdtiled": 3, "block": 3, "concat": 3, "mm3": 2}, keep=("bdiag",))
    g.program(r.choice([1, 2, 3]), r.choice([4, 6, 8] if not thorough else [6, 10]))
    cfgs = []
    for _ in range(1 if not thorough else 2):
        k = r.choice(["plain", "hash", "hash", "hash", "jax-first", "jax-then", "late", "late"])
        c = {"k": k, "hash": str(1 + idx % 8) if k == "hash" else "0"}
        if r.random() < 0.6:
            c["warm"] = r.randrange(1 << 30)
        if k == "late":
            c["at"] = [r.randrange(-1, len(g.steps)), int(r.expovariate(1 / 20)) if r.random() < 0.5 else -1]
        cfgs.append(c)
    return {"steps": g.steps, "cfgs": cfgs, "tail": r.randrange(1 << 30) if r.random() < 0.06 else 0}


def load_jax():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import jax  # noqa: F401
        import lab.jax  # noqa: F401


def outcome(w, s, st, warned):
    """What a call did, in plain data."""
    i = s["i"]
    if st == "skip":
        return ("skip",)
    if st == "exc":
        return ("exc", type(w.exc[i]).__name__, str(w.exc[i])[:300], warned)
    o = w.o[i]
    return ("ok", repr(structure(o)) + zeros(o), value(o), warned)


def zeros(o):
    """The data types of zero matrices, which hold no values that show them."""
    if kindof(o) == "Zero":
        return f" of {np.dtype(o.dtype)}" if isinstance(o.dtype, (type, np.dtype)) else f" of {o.dtype}"
    return "".join(zeros(p) for p in world.parts(o)) if kindof(o) in world.MATRIX_TYPES else ""


def value(o):
    if isinstance(o, str):
        return o
    try:
        v = np.asarray(absval(o))
    except Exception as e:
        return f"no value: {type(e).__name__}"
    if v.dtype == object:
        return repr(o)[:300]
    return v


def run(steps, cfg, tail):
    """Execute a program in this process."""
    lib = boot.load()
    engine.reset_process()
    if cfg.get("warm"):
        r = arrays.rng("warm", cfg["warm"])
        g = gen.G(r)
        ww = world.World(lib, g.program(2, 5))
        for s in ww.steps:
            ww.do(s)
    late = cfg.get("at")
    if late and late[0] == -1:
        load_jax()
    w = world.World(lib, steps)
    out = []
    for s in steps:
        n = [0]
        mid = late and late[0] == s["i"]

        def line(code, pos):
            n[0] += 1
            if n[0] == late[1] + 1:
                load_jax()

        if mid and late[1] < 0:
            load_jax()
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            if mid and late[1] >= 0:
                with monitor.events([("matrix", EV.LINE, line)]):
                    st = twin.run_step(w, s)
                load_jax()
            else:
                st = twin.run_step(w, s)
        out.append(outcome(w, s, st, [(x.category.__name__, str(x.message)) for x in log if "matrix" in str(x.category.__module__)]))
    if tail:
        load_jax()
        out.extend(jax_tail(lib, w, tail))
    return out


def jax_tail(lib, w, seed):
    """JAX and NumPy operands together, on the matrices that exist."""
    import jax.numpy as jnp

    B, M = lib.B, lib.M
    r = arrays.rng("tail", seed)
    mats = [i for i, o in w.o.items() if kindof(o) in world.MATRIX_TYPES and np.ndim(absval(o)) == 2]
    r.shuffle(mats)
    out = []
    for i in mats[:2]:
        m = w.o[i]
        n = np.shape(absval(m))[-1]
        d = jnp.asarray(np.arange(1.0, n + 1))
        f = r.choice(["add", "mm", "mul", "dense"])
        try:
            if f == "add":
                o = B.add(m, M.Diagonal(d)) if np.shape(absval(m))[-2] == n else B.add(m, M.Constant(jnp.asarray(2.0), *np.shape(absval(m))))
            elif f == "mm":
                o = B.matmul(m, M.Diagonal(d))
            elif f == "mul":
                o = B.multiply(m, d[-1])
            else:
                o = B.dense(B.matmul(m, d[:, None]))
        except Exception as e:
            out.append(("exc", type(e).__name__, str(e)[:300], []))
            continue
        out.append(("ok", repr(structure(o)), value(o), []))
    return out


def differ(a, b, tol, exact):
    """In what two outcomes differ."""
    if a[0] != b[0]:
        return f"{word(b)}, but {word(a)} in a process with a long history"
    if a[0] == "skip":
        return None
    if a[-1] != b[-1]:
        return f"warns {b[-1]}, but {a[-1]} in a process with a long history"
    if a[0] == "exc":
        return None if a[1] == b[1] else f"{word(b)}, but {word(a)} in a process with a long history"
    if a[1] != b[1]:
        return f"has structure {b[1]}, but {a[1]} in a process with a long history"
    x, y = a[2], b[2]
    if isinstance(x, str) or isinstance(y, str):
        if exact == "str" and x != y:
            return f"= {y}, but {x} in a process with a long history"
        return None
    if x.dtype != y.dtype:
        return f"has data type {y.dtype}, but {x.dtype} in a process with a long history"
    if x.shape != y.shape:
        return f"has shape {y.shape}, but {x.shape} in a process with a long history"
    if not exact or x.dtype.kind not in "fiub":
        return None
    with np.errstate(all="ignore"):
        if x.dtype == bool:
            ok = (x == y).all()
        else:
            ok = np.allclose(x, y, rtol=tol, atol=tol * (1 + np.abs(x[np.isfinite(x)]).max(initial=0)), equal_nan=True)
    return None if ok else f"= {world.short(y)}, but {world.short(x)} in a process with a long history"


def word(a):
    return f"raises {a[1]}: {a[2][:160]}" if a[0] == "exc" else {"ok": "completes", "skip": "is not made"}[a[0]]


def execute(prog, stats):
    lib = boot.load()
    steps = prog["steps"]
    w0 = world.World(lib, steps)
    good = twin.baseline(w0, steps)
    if not good:
        stats.add("baseline already wrong")
    # The process of this check has a long history of its own.
    ref = run(steps, {}, 0)
    for c in prog["cfgs"]:
        cfg = {**BASE, "hash": c["hash"], **KINDS[c["k"]]}
        tail = prog["tail"] if c["k"] == "late" else 0
        got = zygote.get(cfg).call("props.c13", "run", steps, c, tail)
        stats.add("processes")
        stats.add("steps", len(got))
        stats.add("fault:" + c["k"])
        r = ref
        if tail:
            r = zygote.get(cfg).call("props.c13", "run", steps, {"k": "late", "at": [-1, -1]}, tail)
            stats.add("calls mixing NumPy and JAX", len(r) - len(steps))
        check(prog, stats, w0, good, r, got, c)


def check(prog, stats, w0, good, ref, got, c):
    steps = prog["steps"]
    name = c["k"] + (f" (hash seed {c['hash']})" if c["k"] == "hash" else "") + (f" (loaded at step {c['at'][0]}, line event {c['at'][1]})" if c.get("at") else "") + (
        " after other first uses" if c.get("warm") else "")
    for k, (a, b) in enumerate(zip(ref, got)):
        s = steps[k] if k < len(steps) else None
        i = s["i"] if s else None
        exact = good and (s is None or i not in w0.taint)
        if s is not None and OPS[s["op"]].cmp in ("str",) or s is not None and s["op"] in ("dtype", "shape"):
            exact = "str"
        tol = w0.m.tol.get(i, 1e-6) if s else 1e-6
        d = differ(a, b, tol, exact)
        stats.add("evaluations")
        if s is not None:
            stats.see("distinct", s["op"], [structure(w0.o[j]) for j in s["a"] if j in w0.o], c["k"], bool(c.get("warm")))
        if d:
            what = w0.describe(s) if s else "a call mixing NumPy and JAX operands"
            raise Mismatch("process", f"{what} {d}; configuration: {name}", i)
