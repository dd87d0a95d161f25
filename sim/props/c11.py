"""C11: a matrix is factorised at most once."""
import threading

import numpy as np
import scipy.linalg

import arrays
import boot
import faults
import gen
import known
import ops
import twin
import world
from ops import OPS
from props import c04
from world import Mismatch, absval, kindof

QUICK = 12000
THOROUGH = 300000
RULE = ("one evaluation is one call on a matrix that was factorised or converted before: it returns the identical object "
        "and no factorisation of that matrix reaches the array layer; distinct = (call, structures, what was obtained "
        "before, what happened in between); non-trivial = something was obtained by an earlier call")
ASSUMPTIONS = ["factorisations are seen where the array layer hands them to NumPy or SciPy, and told apart by their values",
               "factorisations of plain arrays (which have nowhere to keep a result) are not judged", "NumPy backend"]
LISTS = ["plan", "faults", "asks", "steps"]
STUBS = "the sources of failure; the thread scheduler; locks made by the library"
BOOST = {"chol": 3, "dense": 2, "schur": 4, "pd_inv": 3, "inv": 2, "logdet": 3, "root": 1, "iqf": 3, "ratio": 3,
         "sample": 3, "diag": 1.5, "add": 1.5}
ASK = {"chol": 4, "dense": 3, "schur": 3, "pd_schur": 2, "logdet": 3, "iqf": 2, "iqf_diag": 2, "ratio": 2, "ratio2": 2,
       "pd_inv": 3, "inv": 1, "sample": 3, "sum": 1, "diag": 1, "add": 1, "mm": 1}
SAVED = {"chol": "chol", "dense": "dense", "schur": "schur", "pd_schur": "schur"}


def vary(r, steps):
    """No two arrays share values by coincidence."""
    for s in steps:
        if s["op"] == "arr" and s["p"].get("dt", "f8") == "f8" and s["p"]["k"] not in ("mask", "perm"):
            s["p"]["j"] = 1 + s["i"]
            if s["p"]["k"] == "cols":
                s["p"]["j"] = 1


def generate(r, idx, thorough=False):
    mode = "thr" if r.random() < 0.3 else "seq"
    asks = [[r.random(), r.choices(list(ASK), list(ASK.values()))[0], r.choice([0, 0, 0, 0, 1, 2])]
            for _ in range(r.choice([3, 6, 10]))]
    if mode == "thr":
        n = r.choice([2, 2, 3])
        steps = c04.program(r, BOOST, n, thorough)
        instr = int(r.random() < 0.2)
        fs = []
        if r.random() < 0.2:
            fs.append({"t": r.randrange(n), "at": int(r.expovariate(1 / 60) * (6 if instr else 1)) + 1, "kind": r.choice(["KI", "ME"])})
        vary(r, steps)
        return {"mode": mode, "steps": steps, "n": n, "plan": c04.make_plan(r, instr), "instr": instr, "faults": fs,
                "asks": asks, "seed": r.randrange(1 << 30)}
    g = gen.G(r, off=["gc"], boost=BOOST, keep=("chol", "dense"))
    for _ in range(r.choice([1, 2, 2, 3])):
        g.matrix(r.choice(["pd", "pd", "pd", None, "psd"]))
    if r.random() < 0.15:
        # Not positive definite: every attempt fails.
        a = g.arr("grid", (g.n, g.n))
        if a is not None:
            g.emit("Dense", [a.i], nt="Dense")
    k = 0
    while k < r.choice([2, 4, 6, 8]):
        if g.step() is None:
            g.matrix()
        k += 1
    steps = g.steps
    fs = faults.random_faults(r, steps, n=r.choice([1, 2, 3])) if r.random() < 0.6 else []
    vary(r, steps)
    return {"mode": mode, "steps": steps, "faults": fs, "asks": asks, "seed": r.randrange(1 << 30)}


class Ledger:
    """Which factorisations reached the array layer, and what the world has obtained."""

    def __init__(self, lib, stats):
        self.lib, self.stats = lib, stats
        self.cur = {}  # thread -> list of inputs of completed factorisations
        self.keep = []  # Objects that must not be collected, so that identities stay unique.
        self.got = {}  # (id, what) -> True: factorised by a completed call
        self.saved = {}  # (id, what) -> object returned
        self.between = []
        self.old = []

    def __enter__(self):
        def wrap(mod, name):
            f = getattr(mod, name)

            def g(a, *args, **kw):
                out = f(a, *args, **kw)
                l = self.cur.get(threading.get_ident())
                if l is not None and isinstance(a, np.ndarray):
                    l.append(np.array(a))
                return out

            self.old.append((mod, name, f))
            setattr(mod, name, g)

        wrap(np.linalg, "cholesky")
        wrap(scipy.linalg, "cholesky")
        wrap(scipy.linalg, "cho_factor")
        return self

    def __exit__(self, *e):
        for m, n, f in self.old:
            setattr(m, n, f)

    def begin(self):
        self.cur[threading.get_ident()] = []

    def end(self):
        return self.cur.pop(threading.get_ident(), [])

    def owned(self, args):
        """[(id, what, value)] of everything the arguments consist of that can hold a factor,
        and the plain arrays in it."""
        out, raw, seen = [], [], set()

        def walk(o, top):
            t = kindof(o)
            if t not in world.MATRIX_TYPES:
                if isinstance(o, np.ndarray) and o.ndim >= 2:
                    raw.append(o)
                return
            if id(o) in seen:
                return
            seen.add(id(o))
            self.keep.append(o)
            try:
                if t in ("Dense", "Woodbury", "Kronecker"):
                    v = absval(o)
                    if np.ndim(v) >= 2 and v.shape[-1] == v.shape[-2]:
                        out.append((id(o), "chol", v, t))
                if t == "Woodbury":
                    d, m = absval(o.diag), absval(world.look(o.lr).middle)
                    l, r = absval(o.lr.left), absval(o.lr.right)
                    with np.errstate(all="ignore"):
                        s = np.linalg.inv(ops.f64(m)) + np.matmul(np.matmul(ops.T(r), np.linalg.inv(ops.f64(d))), l)
                    out.append((id(o), "schur", s, t))
            except (ValueError, np.linalg.LinAlgError, TypeError):
                pass
            if t in ("Dense", "LowerTriangular", "UpperTriangular"):
                if kindof(o.mat) in world.MATRIX_TYPES:
                    walk(o.mat, False)
                return
            for p in world.parts(o):
                walk(p, False)

        for a in args:
            walk(a, True)
        return out, raw

    def judge(self, what, args, inputs, completed, i=None, ordinary=True, first=False, unsure=()):
        """A call with these arguments led to these factorisations."""
        if not inputs or any(known._has_lowrank(a) for a in args):
            # Low-rank matrices have no triangular factor: their dense forms are factorised on
            # the way.
            return
        own, raw = self.owned(args)
        new = {}
        for x in inputs:
            if any(match(x, v) for v in raw):
                self.stats.add("factorisations of plain arrays")
                continue
            m = [q for q in own if match(x, q[2])]
            if not m:
                self.stats.add("factorisations of intermediate results")
                continue
            if ordinary and not first and all((q[0], q[1]) in self.got for q in m):
                q = m[0]
                part = "the Schur complement of " if q[1] == "schur" else ""
                raise Mismatch("again", f"{what}: {part}a {q[3]} with shape {x.shape} is factorised again, although an "
                               f"earlier call factorised it{self.why()}", i)
            if completed and ordinary and len(m) == 1 and (m[0][0], m[0][1]) not in unsure:
                new[m[0][0], m[0][1]] = True
        self.got.update(new)

    def same(self, what, op, o, r, i=None):
        """Asking again returns the identical object."""
        w = SAVED[op]
        self.keep.append(o)
        self.keep.append(r)
        k = (id(o), w)
        if k in self.saved:
            if self.saved[k] is not r:
                raise Mismatch("identity", f"{what} returns another object than it did before{self.why()}", i)
            return True
        self.saved[k] = r
        return False

    def why(self):
        return f" (in between: {', '.join(self.between[-6:])})" if self.between else ""


def match(x, v):
    v = np.asarray(v)
    if v.dtype == object or x.shape[-2:] != v.shape[-2:] or x.ndim < v.ndim:
        return False
    tol = 1e-4 if v.dtype == np.float32 or x.dtype == np.float32 else 1e-8
    try:
        d = np.abs(x - v)
    except ValueError:
        return False
    return d.shape == x.shape and bool((d <= tol * (np.abs(v).max(initial=0) + 1e-3)).all())


def call_ask(w, name, m, r):
    """Call `name` on matrix `m`; returns (ok, result)."""
    x = w.x
    v = absval(m)
    n = np.shape(v)[-1]
    b = np.array([[r.choice([-1.0, 0.5, 2.0]) for _ in range(2)] for _ in range(n)])
    args, p = [m], {}
    if name in ("iqf", "iqf_diag"):
        args = [m, x.M.Dense(b)]
    elif name == "ratio":
        name, args = "ratio", [x.M.Diagonal(np.ones(n) * 1.37), m]
    elif name == "ratio2":
        name, args = "ratio", [m, x.M.Diagonal(np.ones(n) * 1.37)]
    elif name == "sample":
        p = {"seed": r.randrange(100), "n": 2}
    elif name in ("add", "mm"):
        args = [m, m]
    elif name == "sum":
        p = {"ax": -1}
    return name, args, p


def ask(prog, w, led, stats, mats, w0):
    """Ask the matrices again, and compare."""
    B = w.lib.B
    r = arrays.rng("ask", prog["seed"])
    for u, name, how in prog["asks"]:
        if not mats:
            return
        i = mats[int(u * len(mats)) % len(mats)]
        m = w.o[i]
        if name in ("schur", "pd_schur") and kindof(m) != "Woodbury":
            continue
        real, args, p = call_ask(w, name, m, r)
        try:
            with np.errstate(all="ignore"):
                if real not in ("dense", "sum", "diag", "add", "mm") and not world.guard(real, args, p):
                    continue
        except (np.linalg.LinAlgError, ops.Skip, ValueError):
            continue
        what = f"{name}(#{i}:{kindof(m)})"
        rec = how == 1
        led.begin()
        res, err = None, None
        try:
            if rec:
                c = B.ControlFlowCache()
                with c:
                    res = OPS[real].call(w.x, args, p)
            else:
                res = OPS[real].call(w.x, args, p)
        except Exception as e:
            err = e
        inputs = led.end()
        led.keep.extend(args)
        before = sorted(k[1] for k in led.got if k[0] == id(m)) + sorted("=" + k[1] for k in led.saved if k[0] == id(m))
        led.judge(what, args, inputs, err is None, i, ordinary=not rec)
        if not rec and err is None and name in SAVED:
            led.same(what, name, m, res, i)
        if before:
            stats.add("evaluations")
            stats.see("distinct", name, world.structure(m), before, led.between[-2:])
        led.between.append(("recorded " if rec else "failed " if err is not None else "") + what)


def sequential(prog, stats, lib, led):
    steps = prog["steps"]
    w0 = world.World(lib, steps)
    tr = faults.Trace()
    with faults.active(tr):
        if not twin.baseline(w0, steps, tr):
            stats.add("baseline already wrong")
            return None
    stats.add("steps", tr.lines())
    by = {}
    for f in prog["faults"]:
        by.setdefault(f["s"], []).append(f)
    w = world.World(lib, steps, models=w0.m)
    inj = faults.Injector()
    with faults.active(inj):
        for s in steps:
            i = s["i"]
            a = w.args(s)
            if a is None:
                continue
            dom = w0.in_domain(s, a)
            for f in by.get(i, ()):
                pt = tr.resolve(f)
                if pt is None:
                    continue
                inj.arm(f["kind"], pt[0], pt[1])
                led.begin()
                st = twin.run_step(w, s)
                inputs = led.end()
                fired = inj.disarm()
                led.judge(w0.describe(s), a, inputs, st == "ok", i)
                if fired is not None:
                    stats.add("fault:" + f["kind"])
                    led.between.append(f"interrupted {s['op']}")
                if st == "ok" and s["op"] in SAVED and kindof(a[0]) in world.MATRIX_TYPES:
                    led.same(w0.describe(s), s["op"], a[0], w.o[i], i)
                w.o.pop(i, None)
            before = sorted(k[1] for q in a for k in (*led.got, *led.saved) if k[0] == id(q))
            led.begin()
            st = twin.run_step(w, s)
            led.judge(w0.describe(s), a, led.end(), st == "ok", i)
            if st == "ok" and s["op"] in SAVED and kindof(a[0]) in world.MATRIX_TYPES:
                led.same(w0.describe(s), s["op"], a[0], w.o[i], i)
            if before:
                stats.add("evaluations")
                stats.see("distinct", s["op"], [world.structure(q) for q in a], before, led.between[-2:])
            led.between.append(("failed " if st == "exc" else "") + f"{s['op']}")
            if dom:
                twin.compare(w, w0, s, what=" after failed attempts")
    w.taint |= w0.taint
    return w, w0


def threaded(prog, stats, lib, led):
    steps = prog["steps"]
    setup, per, post = c04.split(prog)
    w0 = world.World(lib, steps)
    tr = faults.Trace()
    with faults.active(tr, warn=False, kernels=False):
        if not twin.baseline(w0, setup + [s for ss in per for s in ss] + post, tr):
            stats.add("baseline already wrong")
            return None
    w = world.World(lib, steps, models=w0.m)
    for s in setup:
        a = w.args(s)
        led.begin()
        st = twin.run_step(w, s)
        x = led.end()
        if a is not None:
            led.judge(w0.describe(s), a, x, st == "ok", s["i"])
            if st == "ok" and s["op"] in SAVED and kindof(a[0]) in world.MATRIX_TYPES:
                led.same(w0.describe(s), s["op"], a[0], w.o[s["i"]], s["i"])
    budget = (tr.lines() * 10 + 3000) * (20 if prog["instr"] else 1)
    inputs = {}

    def before(t, s):
        led.cur[threading.get_ident()] = inputs[s["i"]] = []

    sch = c04.concurrent(prog, w, w0, budget, stats, before)
    led.cur.clear()
    led.between.append("concurrent calls")
    # What was obtained before the threads started stays so during their calls; what they
    # obtained counts once they are done.
    done = []
    for s in [s for ss in per for s in ss]:
        a, i = w.args(s), s["i"]
        if a is None or i not in w.o:
            continue
        led.judge(w0.describe(s) + " in a thread", a, inputs.get(i, ()), False, i)
        done.append((w0.describe(s), a, inputs.get(i, ()), True, i))
    # Threads that compute a Schur complement at the same time may each go on with their own
    # one, of which only one is kept: which one was factorised is then not known.
    seen, unsure = {}, set()
    for s in [s for ss in per for s in ss]:
        for k in {q[:2] for q in led.owned(w.args(s) or ())[0] if q[1] == "schur"}:
            if seen.setdefault(k, s["t"]) != s["t"]:
                unsure.add(k)
    for d in done:
        led.judge(*d, first=True, unsure=unsure)
    for s in post:
        a = w.args(s)
        if a is None:
            continue
        led.begin()
        st = twin.run_step(w, s)
        led.judge(w0.describe(s), a, led.end(), st == "ok", s["i"])
        if st == "ok" and s["op"] in SAVED and kindof(a[0]) in world.MATRIX_TYPES:
            led.same(w0.describe(s), s["op"], a[0], w.o[s["i"]], s["i"])
        stats.add("evaluations")
    w.taint |= w0.taint
    return w, w0


def execute(prog, stats):
    lib = boot.load()
    with Ledger(lib, stats) as led:
        x = (threaded if prog["mode"] == "thr" else sequential)(prog, stats, lib, led)
        if x is None:
            return
        w, w0 = x
        mats = [i for i, o in w.o.items() if kindof(o) in world.MATRIX_TYPES and i not in w.taint
                and np.ndim(absval(o)) >= 2 and np.shape(absval(o))[-1] == np.shape(absval(o))[-2]]
        ask(prog, w, led, stats, mats, w0)
