"""C09: replaying recorded control flow gives the recorded computation."""
import arrays
import boot
import engine
import faults
import gen
import known
import numpy as np
import twin
import world
from ops import OPS, Skip
from world import MATRIX_TYPES, Mismatch, absval, kindof

JAX = True
QUICK = 3000
THOROUGH = 200000
RULE = ("one evaluation is one run of a computation that replays (or makes) a record, compared step by step with running it without a record, with all reads and writes of the record counted; "
        "distinct = (operations of the computation that consumed outcomes, operand structures, what happened since the recording, how it is replayed); non-trivial = the record holds at least one outcome")
ASSUMPTIONS = ["a record belongs to one thread; LAB's control-flow cache itself is trusted", "data with the same coincidences keep equal columns equal, distinct ones distinct, and zeros zero"]
LISTS = ["events", "faults", "steps"]
STUBS = "the record's table of outcomes is a dictionary that logs every access; one run in ten replays on abstract JAX values"
LOOSE = ("sample", "schur", "pd_schur")


def generate(r, idx, thorough=False):
    jax = r.random() < 0.03
    kw = dict(bases=[(), (), (2,)]) if jax else {}
    g = gen.G(r, off=["gc", "bad", "gsample", "to_numpy", "str", "repr", "cast", "sample", "isnan"], dts=["f8"], lays=False, ro=False,
              boost={"add": 3, "sub": 2.5, "mm": 1.5, "inv": 3, "pd_inv": 2, "schur": 4, "dense": 2, "chol": 1.5, "submatrix": 1.5, "take": 1.5},
              keep=("add", "sub", "mm", "inv", "schur"), maxdepth=8, **kw)
    g.n = r.choice([1, 2, 2, 3])
    lowrankish(g, r)

    def steps(n, f):
        n0 = len(g.steps)
        for _ in range(n):
            f()
        return list(range(n0, len(g.steps)))

    def mat():
        if r.random() < 0.55:
            r.choice([lambda: g.m_LowRank(r.choice(["sq", "pd", "psd"]), g.n, g.n, 0), lambda: g.m_Woodbury(r.choice(["inv", "pd", "pd"]), g.n, g.n, 0), lambda: nested(g, r)])()
        else:
            g.matrix()

    ctx = steps(r.choice([1, 1, 2, 3]), mat)
    ctx += steps(r.choice([0, 0, 1, 2]), g.step)
    # What happens to the matrices outside the record uses them only.
    warm = steps(r.choice([0, 1, 2, 3]), g.step)
    for j in warm:
        g.slots.pop(j, None)
    body = []
    n0 = len(g.steps)
    for _ in range(r.choice([1, 1, 2])):
        mat()
    for s in g.steps[n0:]:
        if s["op"] == "arr" and r.random() < 0.8:
            s["tr"] = 1
    for _ in range(r.choice([2, 3, 4, 6] if not thorough else [4, 6, 10])):
        if r.random() < 0.1:
            mask(g, r, jax)
        else:
            g.step()
    body = list(range(n0, len(g.steps)))
    ev = []
    for _ in range(r.choice([1, 2, 3, 4])):
        x = r.random()
        if x < 0.3 and warm:
            ev.append(["warm", r.sample(warm, r.randrange(1, len(warm) + 1))])
        elif x < 0.4:
            ev.append(["plain", r.randrange(3)])
        elif x < 0.5:
            ev.append(["plain!", r.randrange(3)])
        elif x < 0.57:
            ev.append(["rec!", r.randrange(3)])
        elif x < 0.64:
            ev.append(["replay!", r.randrange(3)])
        elif x < 0.7:
            ev.append(["rec", r.randrange(3)])
        elif x < 0.78:
            ev.append(["other", r.randrange(3)])
        elif x < 0.84:
            ev.append(["renew", r.randrange(2)])
        else:
            ev.append(["replay", r.randrange(3)])
    head = []
    for _ in range(r.choice([0, 0, 1])):
        head.append(r.choice([["warm", list(warm)], ["plain", 0], ["rec!", 0]]))
    ev = head + [["rec", r.randrange(3)]] + ev + [["replay", r.randrange(3)]]
    fs = [{k: v for k, v in f.items() if k != "s"} | {"e": k} for k in range(len(ev)) if ev[k][0].endswith("!")
          for f in faults.random_faults(r, g.steps, n=1)]
    return {"steps": g.steps, "ctx": ctx, "body": body, "events": ev, "faults": fs, "lazy": int(r.random() < 0.25), "jax": r.choice(["jit", "make_jaxpr", "eval_shape", "B.jit", "make_jaxpr"]) if jax else "",
            "probe": r.randrange(1 << 30)}


def lowrankish(g, r):
    """Few columns, so that low-rank factors share some."""
    while len(g.colpool) > 3:
        g.colpool.pop()


def nested(g, r):
    """Diagonal plus low rank whose middle factor is of that form too."""
    mid = g.m_Woodbury("pd", 2, 2, 1)
    d = g.m_Diag("pd", g.n, g.n, 1)
    if mid is None or d is None:
        return None
    if r.random() < 0.6:
        c = g.arr("vpos", ())
        f = c and g.emit("Const", [c.i], {"sh": [g.n, 2]}, nt="Constant")
    else:
        f = g.m_LowRank("any", g.n, 2, 1)
    lr = f and g.emit("LowRank", [f.i, mid.i], {"m": 1}, nt="LowRank")
    return lr and g.emit("Woodbury", [d.i, lr.i], nt="Woodbury")


def mask(g, r, jax):
    s = g.pick("mat", pred=(lambda s: s.nt in ("Constant", "Zero")) if jax or r.random() < 0.6 else None)
    if s is None:
        s = r.choice([g.m_Const, g.m_Zero])("any", g.n, g.dim(), 0)
    ax = r.choice([-2, -1])
    if r.random() < 0.4 and s.mv.shape[-1] == s.mv.shape[-2]:
        ax = None
    m = g.arr("mask", (s.mv.shape[ax or -1],), "b1")
    if m is None:
        return None
    g.steps[m.i]["p"].pop("lay", None)
    g.steps[m.i]["tr"] = 1
    return g.emit("takem", [s.i, m.i], {"ax": ax}) if ax else g.emit("submatm", [s.i, m.i])


class Record(dict):
    """Outcomes, with a log of accesses."""

    def __init__(self):
        super().__init__()
        self.log = []

    def __setitem__(self, k, v):
        self.log.append(("set", k))
        super().__setitem__(k, v)

    def __getitem__(self, k):
        self.log.append(("get", k))
        return super().__getitem__(k)


def versions(steps, v):
    """The program on version `v` of the data."""
    out = []
    # Columns that the data share with other matrices are shared in every version.
    pin = sorted({c for s in steps if s["op"] == "arr" and not s.get("tr") for row in s["p"].get("cs", ()) for c in row})
    for s in steps:
        if s["op"] == "arr":
            s = {**s, "p": {**s["p"], "j": v if s.get("tr") else 0}}
            if s.get("tr") and "cs" in s["p"]:
                s["p"]["pin"] = pin
        out.append(s)
    return out


class Run:
    """The plain execution of everything on new objects, which says what is expected."""

    def __init__(self, lib, prog, v):
        steps = versions(prog["steps"], v)
        self.w = w = world.World(lib, steps)
        self.bad = set()
        body = set(prog["body"])
        for s in steps:
            i = s["i"]
            a = w.args(s)
            if a is None:
                self.bad.add(i)
                continue
            dom = w.in_domain(s, a)
            st = twin.run_step(w, s)
            ok = st == "ok"
            if ok:
                try:
                    w.verify(s, a, 1)
                except Mismatch:
                    ok = False  # C01 reports it.
                if known.risky(w, s) or not dom:
                    ok = False
            if not ok and i in body:
                self.bad.add(i)
                w.o.pop(i, None)
            if not ok:
                w.taint.add(i)


def execute(prog, stats):
    if prog["jax"]:
        return execute_jax(prog, stats)
    lib = boot.load()
    runs = {}

    def plain(v):
        if v not in runs:
            runs[v] = Run(lib, prog, v)
        return runs[v]

    bad = set()
    for t, x in prog["events"]:
        if t != "warm" and t not in ("other", "renew"):
            bad |= plain(x).bad
    body = [i for i in prog["body"] if i not in bad]
    w = world.World(lib, versions(prog["steps"], 0))
    for i in prog["ctx"]:
        if i in w.by:
            twin.run_step(w, w.by[i])
    P = Player(lib, prog, w, body, plain, stats)
    P.events()


class Player:
    def __init__(self, lib, prog, w, body, plain, stats):
        self.lib, self.prog, self.w, self.body, self.plain, self.stats = lib, prog, w, body, plain, stats
        self.cf = lib.B.control_flow
        self.rec = None
        self.kept = []
        self.since = []

    def data(self, v):
        """Newly made arrays that the computation is given."""
        out = {}
        for s in versions(self.prog["steps"], v):
            if s.get("tr") and s["i"] in self.body:
                out[s["i"]] = self.w.call(s, [])
        return out

    arm = None

    def compute(self, v, ctx, each=None, data=None):
        """The computation, on version `v` of the data. Returns its results."""
        if self.arm is None:
            return self._compute(v, ctx, each, data)
        self.arm(True)
        try:
            return self._compute(v, ctx, each, data)
        finally:
            self.arm(False)

    def _compute(self, v, ctx, each, data):
        loc = dict(data if data is not None else self.data(v))
        for i in self.body:
            s = self.w.by.get(i)
            if s is None or i in loc:
                continue
            if any(j not in loc and j not in ctx for j in s["a"]):
                continue
            a = [loc[j] if j in loc else ctx[j] for j in s["a"]]
            if each:
                each(s, a, None)
            loc[i] = self.w.call(s, a)
            if each:
                each(s, a, loc[i])
        return loc

    def context(self):
        return {i: self.w.o[i] for i in self.prog["ctx"] if i in self.w.o}

    def enter(self, cache):
        import contextlib

        st = contextlib.ExitStack()
        st.enter_context(cache)
        if self.prog["lazy"]:
            st.enter_context(self.lib.B.lazy_shapes())
        return st

    def fault(self, k, call):
        """Execute `call` with the faults of event `k`. Returns the injected exception."""
        f = next((f for f in self.prog["faults"] if f["e"] == k), None)
        if f is None:
            return None
        # Points are resolved on a fault-free execution on new objects.
        tr = faults.Trace()
        fresh = {i: world.clone(o, self.w.x.M) for i, o in self.context().items()}
        with faults.active(tr):
            tr.start("x")
            try:
                self.compute(0, fresh)
            except Exception:
                pass
            tr.stop()
        pt = tr.resolve({**f, "s": "x"})
        if pt is None:
            return None
        inj = faults.Injector()
        with faults.active(inj):
            # Inside the computation only, not in LAB's handling of the record.
            self.arm = lambda on: inj.arm(f["kind"], pt[0], pt[1]) if on else setattr(inj, "armed", None)
            try:
                call()
            except (Exception, KeyboardInterrupt):
                pass
            finally:
                self.arm = None
            x = inj.disarm()
        if x is not None:
            self.stats.add("fault:" + f["kind"])
        return x

    def events(self):
        for k, (t, x) in enumerate(self.prog["events"]):
            n = len(self.rec.outcomes.log) if self.rec else 0
            getattr(self, {"warm": "warm", "plain": "ordinary", "plain!": "failing", "rec": "record", "rec!": "record_failing", "replay": "replay",
                           "replay!": "replay_failing", "other": "other", "renew": "renew"}[t])(k, x)
            if self.rec and t in ("warm", "plain", "plain!", "rec!", "other", "renew"):
                if len(self.rec.outcomes.log) > n:
                    raise Mismatch("outside", f"event {k} ({t}) accessed a record that is not in use: {self.rec.outcomes.log[n:][:3]}")
            for c, size in self.kept:
                if len(c.outcomes.log) != size:
                    raise Mismatch("outside", f"event {k} ({t}) accessed an old record")
            cf = self.cf
            if cf.caching or cf.use_cache or self.lib.B.lazy_shapes.enabled:
                raise Mismatch("mode", f"event {k} ({t}) left recording or replaying switched on")
            self.since.append(t)

    def warm(self, k, ids):
        for i in ids:
            s = self.w.by.get(i)
            if s is not None and self.w.args(s) is not None:
                twin.run_step(self.w, s)
                self.w.o.pop(i, None)

    def renew(self, k, all_):
        """The matrices are built anew."""
        for i, o in self.context().items():
            self.w.o[i] = world.clone(o, self.w.x.M)

    def check(self, v, what, log=None):
        """A callback that compares every result with the plain execution."""
        w0 = self.plain(v).w
        st = {"n": 0}

        def each(s, a, r):
            if r is None:
                st["n"] = len(log) if log is not None else 0
                return
            i = s["i"]
            if log is not None and len(log) > st["n"]:
                self.stats.see("distinct", s["op"], [world.structure(o) for o in a], what, self.since[-1:], self.prog["lazy"])
                self.stats.mark("operations with outcomes", s["op"])
            if i not in w0.o:
                return
            d = w0.describe(s)
            o, o0 = r, w0.o[i]
            if OPS[s["op"]].cmp == "shape" or s["op"] == "dtype":
                if twin._plain(o) != twin._plain(o0):
                    raise Mismatch("value", f"{d} = {o} {what}, but {o0} otherwise", i)
                return
            if w0.m.mv.get(i) is None or s["op"] in LOOSE or i in w0.taint:
                if world.structure(o) != world.structure(o0):
                    raise Mismatch("structure", f"{d} is {world.structure(o)} {what}, but {world.structure(o0)} otherwise", i)
                return
            twin.same(o, o0, w0.m.tol.get(i, 1e-6), w0.m.scale.get(i, 1.0), d, " " + what, i)

        return each

    def guarded(self, f, what):
        try:
            return f()
        except (Exception, KeyboardInterrupt) as e:
            if isinstance(e, (Mismatch, boot.HarnessError)):
                raise
            raise Mismatch("exception", f"the computation raises {type(e).__name__}: {str(e)[:300]} {what} (after {self.since}), but completes otherwise")

    def ordinary(self, k, v):
        self.guarded(lambda: self.compute(v, self.context(), self.check(v, "outside a record")), "outside a record")
        self.stats.add("evaluations")
        self.stats.add("steps")

    def failing(self, k, v):
        self.fault(k, lambda: self.compute(v, self.context()))

    def record(self, k, v):
        B = self.lib.B
        if self.rec:
            self.kept.append((self.rec, len(self.rec.outcomes.log)))
        c = B.ControlFlowCache()
        c.outcomes = Record()
        log = c.outcomes.log

        def run():
            with self.enter(c):
                self.compute(v, self.context(), self.check(v, "while recording", log))

        self.guarded(run, "while recording")
        if any(x != "set" for x, _ in log) or [n for _, (_, n) in log] != list(range(len(log))):
            raise Mismatch("record", f"recording made these accesses: {log[:8]}")
        self.rec = c
        self.stats.add("evaluations")
        self.stats.add("steps")
        self.stats.add("recordings")
        self.stats.add("outcomes recorded", len(log))

    def record_failing(self, k, v):
        c = self.lib.B.ControlFlowCache()
        c.outcomes = Record()

        def run():
            with self.enter(c):
                self.compute(v, self.context())

        self.fault(k, run)

    def replay(self, k, v, fault=False, ctx=None, what="when replayed"):
        c = self.rec
        if c is None:
            return
        keys = list(c.outcomes)
        n = len(c.outcomes.log)
        log = c.outcomes.log
        ctx = ctx or self.context()

        def run():
            with self.enter(c):
                self.compute(v, ctx, self.check(v, what, log))

        self.guarded(run, what)
        got = log[n:]
        if got != [("get", q) for q in keys]:
            raise Mismatch("consumption", f"a record of {len(keys)} outcomes was replayed with {len(got)} accesses; recorded {keys[:6]}..., accessed {got[:6]}... (after {self.since})")
        self.stats.add("evaluations")
        self.stats.add("steps")
        self.stats.add("replays" if keys else "replays of empty records")
        if keys:
            self.stats.see("distinct", "replay", sorted({q[0] for q in keys}), len(keys), tuple(self.since))

    def replay_failing(self, k, v):
        c = self.rec
        if c is None:
            return

        def run():
            with self.enter(c):
                self.compute(v, self.context())

        keys = list(c.outcomes)
        n = len(c.outcomes.log)
        self.fault(k, run)
        got = c.outcomes.log[n:]
        if got != [("get", q) for q in keys][: len(got)]:
            raise Mismatch("consumption", f"an interrupted replay made the accesses {got[:6]}, not those recorded: {keys[:6]}")

    def other(self, k, v):
        """Replaying does not look at the values: other data take the recorded path."""
        c = self.rec
        if c is None:
            return
        n = len(c.outcomes.log)
        keys = list(c.outcomes)
        data = {}
        w0 = self.plain(0).w
        for s in [self.w.by[i] for i in self.body if i in self.w.by]:
            if s.get("tr"):
                p = dict(s["p"])
                if p["k"] == "mask":
                    pass
                elif p["k"] == "cols":
                    p["cs"] = [[(c * 7 + b + 1) * (j + 1 if v else 1) for j, c in enumerate(row)] for b, row in enumerate(p["cs"])]
                    if v == 2:
                        p["cs"] = [[5] * len(row) for row in p["cs"]]
                else:
                    p["s"] += 1 + v
                data[s["i"]] = self.w.x.arr(arrays.make(p))

        def each(s, a, r):
            if r is None:
                return
            o0 = w0.o.get(s["i"])
            if kindof(r) in MATRIX_TYPES and o0 is not None and s["i"] not in w0.taint and world.structure(r) != world.structure(o0):
                raise Mismatch("structure", f"{w0.describe(s)} is {world.structure(r)} when the record is replayed on other data, but {world.structure(o0)} was recorded", s["i"])

        try:
            with self.enter(c):
                self.compute(0, {i: world.clone(o, self.w.x.M) for i, o in self.context().items()}, each, data)
        except (np.linalg.LinAlgError, FloatingPointError):
            del c.outcomes.log[n:]
            return  # Other data need not have a Cholesky factor.
        except Mismatch:
            raise
        except Exception as e:
            raise Mismatch("exception", f"the computation raises {type(e).__name__}: {str(e)[:300]} when the record is replayed on other data of the same shapes")
        got = c.outcomes.log[n:]
        if got != [("get", q) for q in keys]:
            raise Mismatch("consumption", f"on other data, a record of {len(keys)} outcomes was replayed with {len(got)} accesses: {got[:6]}, recorded {keys[:6]}")
        del c.outcomes.log[n:]
        self.stats.add("evaluations")
        self.stats.add("replays on other data")


def execute_jax(prog, stats):
    """Replay on abstract values."""
    lib = boot.load(jax=True)
    runs = {v: Run(lib, prog, v) for v in (0, 1)}
    bad = runs[0].bad | runs[1].bad
    body = [i for i in prog["body"] if i not in bad]
    steps = prog["steps"]
    w = world.World(lib, versions(steps, 0), "jax")
    for i in prog["ctx"]:
        if i in w.by:
            twin.run_step(w, w.by[i])
    # Some calls cannot be traced at all.
    P = Player(lib, prog, w, body, lambda v: runs[v], stats)
    ctx = P.context()
    kind = prog["jax"]
    d0, d1 = P.data(0), P.data(1)
    ids = list(d0)
    jax = lib.jax
    c = lib.B.ControlFlowCache()
    c.outcomes = Record()
    log = c.outcomes.log

    dense = set()
    for i in body:
        if i in runs[0].w.o and i not in ids:
            try:
                lib.B.dense(world.clone(runs[0].w.o[i], w.x.M))
                dense.add(i)
            except Exception:
                pass  # Some combinations have no dense form.

    def f(*xs):
        out = P.compute(0, ctx, data=dict(zip(ids, xs)))
        return {str(i): lib.B.dense(o) for i, o in out.items() if i in dense and (kindof(o) in MATRIX_TYPES or isinstance(o, jax.Array))}

    def g(*xs):
        with P.enter(c):
            return f(*xs)

    xs0, xs1 = [d0[i] for i in ids], [d1[i] for i in ids]
    if not ids:
        return
    what = f"replayed under {kind}"
    warm = [x for t, x in prog["events"] if t == "warm"]
    try:
        if kind == "B.jit":
            h = lib.B.jit(f)
            if warm:
                # Compilation happens in the call that records.
                P.warm(0, warm[0])
            h(*xs0)
            for x in warm[1:]:
                P.warm(0, x)
            out = h(*xs1)
        else:
            g(*xs0)
            keys = list(c.outcomes)
            n = len(log)
            for x in warm:
                P.warm(0, x)
            if kind == "jit":
                out = jax.jit(g)(*xs1)
            elif kind == "make_jaxpr":
                out = jax.make_jaxpr(g, return_shape=True)(*xs1)[1]
            else:
                out = jax.eval_shape(g, *xs1)
            if log[n:] != [("get", q) for q in keys]:
                raise Mismatch("consumption", f"a record of {len(keys)} outcomes was {what} with accesses {log[n:][:6]}")
            stats.add("replays" if keys else "replays of empty records")
    except Mismatch:
        raise
    except Exception as e:
        if untraceable(e):
            stats.add("not traceable because of LAB")
            return
        raise Mismatch("abstract", f"the computation raises {type(e).__name__}: {str(e)[:400]} {what}, but completes on arrays")
    w1 = runs[1].w
    for key, v in out.items():
        i = int(key)
        if i not in w1.o or i in w1.taint:
            continue
        s = w1.by[i]
        mv = w1.m.mv.get(i)
        if not isinstance(mv, np.ndarray):
            continue
        stats.add("evaluations")
        stats.add("steps")
        if tuple(v.shape) != mv.shape:
            raise Mismatch("shape", f"{w1.describe(s)} {what} has shape {tuple(v.shape)}", i)
        if kind in ("jit", "B.jit") and s["op"] not in LOOSE:
            if OPS[s["op"]].cmp in ("chol",) and w1.m.mv.get(i) is None:
                continue
            e = world.close(np.asarray(v), mv, max(1e-6, w1.m.tol[i]), w1.m.scale[i])
            if e:
                raise Mismatch("value", f"{w1.describe(s)} {what}: {e}", i)
    stats.add("abstract replays")
    stats.see("distinct", kind, [(w1.by[i]["op"], [kindof(w1.o.get(j)) for j in w1.by[i]["a"]]) for i in body if i in w1.by], len(log))


def untraceable(e):
    """LAB's `unstack` cannot be traced with JAX, with or without a record."""
    tb = e.__traceback__
    names = []
    while tb is not None:
        names.append((tb.tb_frame.f_code.co_name, tb.tb_frame.f_code.co_filename))
        tb = tb.tb_next
    return any(n == "unstack" and f.endswith("lab/jax/shaping.py") or n == "_unstack" for n, f in names)
