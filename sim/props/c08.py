"""C08: use inside traced code never affects use outside it."""
import arrays
import boot
import faults
import gen
import known
import numpy as np
import twin
import world
from ops import Skip
from props import c01
from world import MATRIX_TYPES, Mismatch, absval, kindof

JAX = True
QUICK = 900
THOROUGH = 60000
RULE = ("one evaluation is one result compared with the dense model (or with the same function run eagerly): of a call in ordinary code on matrices that traces have touched, or of a "
        "traced function; distinct = (operation, operand structures, kinds of trace that have touched an operand, how the last of them ended); non-trivial = a trace touched an operand before")
ASSUMPTIONS = ["JAX backend on the CPU", "sizes up to 4 rows, batch shapes () and (2,)", "matrices created inside a trace are not kept by the caller"]
LISTS = ["faults", "steps"]
STUBS = "none; the simulator chooses the order and nesting of traces and interrupts them"
KINDS = ["jit", "jit", "eval_shape", "eval_shape", "eval_shape", "make_jaxpr", "make_jaxpr", "vag", "vag", "vmap"]


def generate(r, idx, thorough=False):
    g = gen.G(r, off=["gc", "bad", "gsample", "to_numpy", "str", "repr", "dtype"], bases=[(), (), (2,)], dts=["f8"], lays=False, ro=False,
              boost={"chol": 2, "dense": 2.5, "schur": 4, "pd_inv": 2, "inv": 1.5, "logdet": 1.5, "iqf": 1.5, "sample": 0.5, "root": 1.5}, keep=("chol", "dense", "schur"))
    g.n, g.k = 2, 1
    for _ in range(r.choice([1, 2, 2, 3])):
        g.matrix(r.choice(["pd", "pd", None, "inv"]))
    events = [["s", s["i"]] for s in g.steps]

    def eager(n):
        for _ in range(n):
            n0 = len(g.steps)
            g.step()
            events.extend(["s", j] for j in range(n0, len(g.steps)))

    def block(depth):
        save = dict(g.slots)
        body = []
        n0 = len(g.steps)
        if r.random() < 0.6:
            g.matrix(r.choice(["pd", "inv", "any", "sq"]))
            for s in g.steps[n0:]:
                if s["op"] == "arr" and r.random() < 0.8:
                    s["tr"] = 1
        body.extend(["s", j] for j in range(n0, len(g.steps)))
        for _ in range(r.choice([1, 2, 3, 4])):
            if depth < 2 and r.random() < 0.15:
                body.append(block(depth + 1))
                continue
            n0 = len(g.steps)
            g.step()
            body.extend(["s", j] for j in range(n0, len(g.steps)))
        g.slots.clear()
        g.slots.update(save)
        kind = r.choice(KINDS)
        return ["b", {"kind": kind, "catch": int(r.random() < 0.6), "again": int(kind == "jit" and r.random() < 0.4), "body": body}]

    eager(r.choice([0, 0, 1, 2]))
    for _ in range(r.choice([1, 1, 2, 3] if not thorough else [2, 3, 5])):
        events.append(block(0))
        eager(r.choice([0, 1, 2]))
    if r.random() < 0.25:
        # Some arrays come from NumPy.
        for s in g.steps:
            if s["op"] == "arr" and not s.get("tr") and r.random() < 0.4:
                s["p"]["np"] = 1
    inner = [s for s in g.steps if s["i"] in set(walk(events, True))]
    fs = faults.random_faults(r, inner, kinds=["KI", "KI", "ME", "KM", "KL"], n=r.choice([1, 2])) if r.random() < 0.4 else []
    return {"steps": g.steps, "events": events, "faults": fs, "probe": r.randrange(1 << 30)}


def walk(events, inside=False, depth=0):
    for t, x in events:
        if t == "s":
            if not inside or depth:
                yield x
        else:
            yield from walk(x["body"], inside, depth + 1)


class Player:
    """Executes events in a world."""

    def __init__(self, w, prog, tr=None, inj=None, by=None, alt=0):
        self.w, self.prog = w, prog
        self.lib, self.jax = w.lib, w.lib.jax
        self.tr, self.inj, self.by = tr, inj, by or {}
        self.alt = alt
        self.status = {}
        self.fired = None

    def traced_args(self, b):
        """Steps whose arrays are arguments of the block (not of blocks inside it)."""
        return [self.w.by[x] for t, x in b["body"] if t == "s" and x in self.w.by and self.w.by[x].get("tr")]

    def value(self, s):
        p = dict(s["p"])
        if self.alt:
            p["s"] = p["s"] + self.alt
            if "cs" in p:
                p["cs"] = [[c + self.alt * 13 for c in row] for row in p["cs"]]
        return self.lib.jnp.asarray(arrays.make({k: x for k, x in p.items() if k != "np"}))

    def function(self, b, over):
        """The function a block stands for. `over`: objects it closes over."""
        ts = self.traced_args(b)

        def f(*xs):
            loc = dict(zip([s["i"] for s in ts], xs))
            outs = {}
            for t, x in b["body"]:
                if t == "b":
                    try:
                        self.run_block(x, {**over, **loc})
                    except Exception:
                        if not b["catch"]:
                            raise
                    continue
                if x in loc or x not in self.w.by:
                    continue
                s = self.w.by[x]
                if any(j not in loc and j not in over for j in s["a"]):
                    continue
                a = [loc[j] if j in loc else over[j] for j in s["a"]]
                if all(j in self.w.o and j not in loc for j in s["a"]) and not guarded(s, [self.w.o[j] for j in s["a"]]):
                    continue
                try:
                    loc[x] = self.step(s, a)
                    self.status[x] = "ok"
                except Exception as e:
                    self.status[x] = e
                    if not b["catch"]:
                        raise
                    continue
                o = loc[x]
                if s["op"] not in ("shape", "arr"):
                    try:
                        v = self.w.x.B.dense(o)
                    except Exception:
                        continue
                    if hasattr(v, "dtype"):
                        outs[str(x)] = v
            return outs

        return f, [self.value(s) for s in ts]

    def step(self, s, a):
        i = s["i"]
        if self.tr is not None:
            self.tr.start(i)
        f = next((f for f in self.by.get(i, ()) if not f.get("done")), None) if self.inj is not None else None
        if f is not None:
            pt = f["pt"]
            f["done"] = True
            self.inj.arm(f["kind"], pt[0], pt[1])
        try:
            return self.w.call(s, a)
        finally:
            if self.tr is not None:
                self.tr.stop()
            if f is not None:
                x = self.inj.disarm()
                if x is not None:
                    self.fired = (f["kind"], x)

    def run_block(self, b, over, kind=None):
        """Returns concrete outputs or shapes."""
        f, xs = self.function(b, over)
        jax, jnp = self.jax, self.lib.jnp
        kind = kind or b["kind"]
        if kind == "vag" and (not xs or not all(jnp.issubdtype(x.dtype, jnp.floating) for x in xs)):
            kind = "eval_shape"
        if kind == "vmap" and not xs:
            kind = "make_jaxpr"
        if kind == "jit":
            g = jax.jit(f)
            out = g(*xs)
            self.jitted = (g, f)
            return kind, out
        if kind == "eval_shape":
            return kind, jax.eval_shape(f, *xs)
        if kind == "make_jaxpr":
            return kind, jax.make_jaxpr(f, return_shape=True)(*xs)[1]
        if kind == "eager":
            return kind, f(*xs)
        if kind == "vag":
            def h(*xs):
                outs = f(*xs)
                fl = [jnp.sum(v) for v in outs.values() if jnp.issubdtype(v.dtype, jnp.floating)]
                return sum(fl, jnp.zeros(())), outs
            (_, outs), _ = jax.value_and_grad(h, has_aux=True)(*xs)
            return kind, outs
        outs = jax.vmap(f)(*[x[None] for x in xs])
        return kind, {k: v[0] for k, v in outs.items()}


def concrete(lib, o, what, i):
    def chk(x):
        if isinstance(x, lib.jax.core.Tracer):
            raise Mismatch("leak", f"{what} is an abstract value of a trace that is over", i)
    k = kindof(o)
    chk(o)
    if k in MATRIX_TYPES:
        for p in world.parts(o):
            concrete(lib, p, what, i)


def execute(prog, stats):
    lib = boot.load(jax=True)
    steps = prog["steps"]
    key = lib.B.jax_global_random_state
    w0 = world.World(lib, steps, "jax")
    tr = faults.Trace()
    run0 = Player(w0, prog, tr=tr)
    if prog["faults"]:
        with faults.active(tr, warn=False):
            for t, x in prog["events"]:
                if t == "s":
                    if x in w0.by and w0.args(w0.by[x]) is not None:
                        twin.run_step(w0, w0.by[x])
                else:
                    try:
                        run0.run_block(x, dict(w0.o), "eval_shape")
                    except Exception:
                        pass
    w = world.World(lib, steps, "jax", models=w0.m)
    by = {}
    for f in prog["faults"]:
        pt = tr.resolve(f)
        if pt is not None:
            by.setdefault(f["s"], []).append({**f, "pt": pt})
    inj = faults.Injector()
    touched = {}
    r = arrays.rng("probe", prog["probe"])
    errs = (lib.jax.errors.JAXTypeError, lib.jax.errors.UnexpectedTracerError)
    try:
        for t, x in prog["events"]:
            if t == "s":
                s = w.by.get(x)
                a = s and w.args(s)
                if a is None:
                    continue
                eager(w, s, a, touched, stats)
                continue
            play_block(w, prog, x, by, inj, touched, stats)
            stats.add("steps")
        w.audit()
        mats = [i for i, o in w.o.items() if kindof(o) in MATRIX_TYPES and i in touched]
        r.shuffle(mats)
        twin.probe(w, mats[:2], r, 2, stats, " after use in traced code")
    except errs as e:
        raise Mismatch("leak", f"{type(e).__name__}: {str(e)[:300]}")
    finally:
        lib.B.jax_global_random_state = key


def guarded(s, a):
    try:
        with np.errstate(all="ignore"):
            return world.guard(s["op"], a, s.get("p", {}))
    except (np.linalg.LinAlgError, ValueError, Skip):
        return False


def eager(w, s, a, touched, stats):
    i = s["i"]
    dom = w.in_domain(s, a)
    if not guarded(s, a):
        # JAX gives NaN where NumPy raises: outside the domain.
        stats.add("outside the domain")
        return
    st = w.do(s)
    stats.add("steps")
    tk = [touched[j] for j in s["a"] if j in touched]
    if st == "exc":
        e = w.exc[i]
        r, e2 = c01.cold(w, s, a)
        numeric = isinstance(e, (np.linalg.LinAlgError, FloatingPointError, ZeroDivisionError))
        if e2 is None and (dom or not numeric):
            raise Mismatch("exception", f"{w.describe(s)} raises {type(e).__name__}: {str(e)[:300]} after {tk}; the same call on newly built operands completes", i)
        return
    concrete(w.lib, w.o[i], f"{w.describe(s)} after {tk}", i)
    if known.risky(w, s):
        w.taint.add(i)  # C01 reports known findings.
        return
    v = w.verify(s, a, 1 + (i % 2))
    if v != "unknown":
        stats.add("evaluations")
        if tk:
            stats.see("distinct", s["op"], [world.structure(o) for o in a], tk)


def play_block(w, prog, b, by, inj, touched, stats):
    lib = w.lib
    ids = set(walk([["b", b]]))
    # What the block does on newly built matrices.
    need = {j for i in ids if i in w.by for j in w.by[i]["a"] if j in w.o and j not in ids}
    fresh = {j: world.clone(w.o[j], w.x.M) for j in need}
    p0 = Player(w, prog)
    kind = b["kind"] if b["kind"] in ("vag", "vmap") else "eval_shape"
    try:
        k0, out0 = p0.run_block(b, fresh, kind)
        e0 = None
    except Exception as e:
        out0, e0 = None, e
    faulty = any(i in by for i in ids)
    for attempt in ([1, 0] if faulty else [0]):
        p = Player(w, prog, inj=inj if attempt else None, by=by)
        e1 = None
        try:
            if attempt:
                with faults.active(inj, warn=False):
                    k1, out1 = p.run_block(b, dict(w.o))
            else:
                k1, out1 = p.run_block(b, dict(w.o))
        except (Exception, KeyboardInterrupt) as e:
            e1 = e
        how = "completed"
        if attempt:
            if p.fired is None:
                stats.add("faults not reached")
            else:
                stats.add("fault:" + p.fired[0])
                how = "aborted by " + p.fired[0]
        elif e1 is not None:
            how = "failed"
        stats.add(f"traces {b['kind']} {how.split()[0]}")
        for j in need:
            touched[j] = f"{b['kind']} {how}"
        if attempt and p.fired is not None:
            continue
        d = f"{b['kind']} over {', '.join(f'#{j}:{kindof(w.o[j])}' for j in sorted(need))}"
        for i, st in p0.status.items():
            if st == "ok" and isinstance(p.status.get(i), Exception):
                e = p.status[i]
                raise Mismatch("traced-exception", f"{w.describe(w.by[i])} inside {d} raises {type(e).__name__}: {str(e)[:300]}, but completes on newly built matrices", i)
        if e1 is not None:
            if e0 is None:
                raise Mismatch("traced-exception", f"{d} raises {type(e1).__name__}: {str(e1)[:300]}, but completes on newly built matrices")
            continue
        check_outputs(w, b, k1, out1, out0, p, d, stats, need)
        if b["again"] and k1 == "jit":
            again(w, prog, b, p.jitted[0], d, stats)


def check_outputs(w, b, kind, out, out0, p, d, stats, need):
    for key, v in out.items():
        i = int(key)
        s = w.by[i]
        mv = w.m.mv.get(i)
        if out0 is not None and key in out0 and tuple(out0[key].shape) != tuple(v.shape):
            raise Mismatch("traced-shape", f"{w.describe(s)} inside {d} has shape {tuple(v.shape)}, but {tuple(out0[key].shape)} on newly built matrices", i)
        if not simple(w, s):
            continue
        if mv is None or not isinstance(mv, np.ndarray):
            continue
        if tuple(v.shape) != mv.shape:
            raise Mismatch("traced-shape", f"{w.describe(s)} inside {d} has shape {tuple(v.shape)}, not {mv.shape}", i)
        stats.add("evaluations")
        stats.see("distinct", s["op"], "in", kind, [kindof(w.o.get(j)) for j in s["a"]], b["catch"])
        if kind in ("eval_shape", "make_jaxpr"):
            continue
        v = np.asarray(v)
        e = world.close(v, mv, 1e-5, w.m.scale[i])
        if e:
            raise Mismatch("traced-value", f"{w.describe(s)} inside {d}: {e}", i)


SAFE = {"add", "sub", "mul", "neg", "T", "mm", "mm3", "mmd", "dense", "diag", "sum", "mean", "trace", "take", "getitem", "bto", "bbto",
        "tile", "block_diag", "concat", "block", "kron", "diag_extract", "abs", "reshape", "flatten", "LT", "UT", "Diag", "Dense", "Const"}


def simple(w, s):
    """Whether the model is the reference for this step and all it builds on: nothing on the
    way has a domain (those are compared with the eager execution)."""
    todo, seen = [s["i"]], set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        x = w.by[i]
        if i in w.o:
            if i in w.taint:
                return False
            continue
        if x["op"] not in SAFE and x["op"] not in ("arr", "scal", "LowRank", "Woodbury", "Kron", "Tiled", "Zero"):
            return False
        if x["op"] in ("add", "sub", "mul", "block_diag"):
            sh = [tuple(np.shape(w.m.mv[j]))[-2:] for j in x["a"] if w.m.mv.get(j) is not None]
            if len(set(sh)) > 1 and x["op"] != "block_diag" or x["op"] == "block_diag" and len(x["a"]) < 2:
                return False  # Stretching: known finding KF1.
        todo.extend(x["a"])
    return True


def again(w, prog, b, g, d, stats):
    """A compiled function called later with other values agrees with an eager call."""
    p = Player(w, prog, alt=1)
    f, xs = p.function(b, {j: world.clone(o, w.x.M) for j, o in w.o.items()})
    if not xs:
        return
    try:
        ref = f(*xs)
    except Exception:
        return
    try:
        out = g(*xs)
    except Exception as e:
        raise Mismatch("compiled-exception", f"{d} called again raises {type(e).__name__}: {str(e)[:300]}, but completes eagerly")
    for k, v in out.items():
        if k not in ref:
            continue
        a, c = np.asarray(v), np.asarray(ref[k])
        if not np.isfinite(c).all() or a.dtype.kind not in "fiub":
            continue
        s = w.by[int(k)]
        if s["op"] in ("sample",) or not simple(w, s):
            continue
        e = world.close(a, c, 1e-5, max(1.0, float(np.abs(c).max(initial=0)), w.m.scale[int(k)]))
        if e:
            raise Mismatch("compiled-value", f"{w.describe(s)} inside {d}, called again with other values, differs from the eager result: {e}", int(k))
        stats.add("evaluations")
