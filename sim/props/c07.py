"""C07: random state is threaded correctly through every sampling call."""
import arrays
import boot
import faults
import gen
import known
import numpy as np
import rand
import supported
import twin
import world
from world import Mismatch, absval

JAX = True
QUICK = 4000
THOROUGH = 120000
RULE = ("one evaluation is one sampling call inside a seeded history, with an explicit or the global random state, whose samples and whose state "
        "afterwards are compared with the reference stream; distinct = (backend, explicit or global, structure, batch shape, number of samples, "
        "preceding two events on that state); non-trivial = the call consumed randomness")
ASSUMPTIONS = ["NumPy's RandomState and JAX's threefry keys are trusted", "one thread at a time uses a random state"]
LISTS = ["faults", "steps"]
STUBS = "on NumPy, the reference runs use a random state with given draws; on JAX, the keys handed to jax.random.normal are recorded"
SMP = ("sample", "gsample")


def generate(r, idx, thorough=False):
    jax = r.random() < 0.2
    kw = dict(bases=[(), (2,)], dts=["f8", "f8", "f4"], lays=False, ro=False) if jax else {}
    g = gen.G(r, off=["gc", "sample", "gsample", "bad"], boost={"chol": 2}, **kw)
    if jax:
        g.n, g.k = 2, 1
    for _ in range(r.choice([1, 2, 3])):
        g.matrix(r.choice(["pd", "pd", "psd"]))
    ns = r.choice([1, 2])
    ev = r.choice([4, 6, 10] if not thorough else [8, 14, 20])
    for _ in range(ev):
        x = r.random()
        if x < 0.62:
            a = g.pick("pd") if r.random() < 0.75 else g.pick("psd", pred=lambda s: s.nt in ("Constant", "LowRank", "Kronecker", "Zero"))
            if a is None:
                a = g.matrix("pd")
            if a is None:
                continue
            if r.random() < 0.45:
                g.emit("gsample", [a.i], {"n": r.choice([1, 1, 2, 3])})
            else:
                g.emit("sample", [a.i], {"st": r.randrange(ns), "seed": 1, "n": r.choice([1, 1, 2, 3])})
        elif x < 0.70:
            g.emit("r_seed", (), {"st": r.choice(["g", *range(ns)]), "seed": r.randrange(3)})
        elif x < 0.76:
            g.emit("r_keep", (), {"st": r.choice(["g", *range(ns)])})
        elif x < 0.82:
            g.emit("r_back", (), {"st": r.choice(["g", *range(ns)])})
        elif x < 0.86:
            g.emit("r_use", (), {"st": r.choice(["g", *range(ns)]), "n": r.choice([1, 2, 3])})
        else:
            g.step()
    smp = [s for s in g.steps if s["op"] in SMP]
    fs = faults.random_faults(r, smp, n=r.choice([1, 2, 3])) if smp and r.random() < 0.5 else []
    return {"steps": g.steps, "faults": fs, "jax": int(jax)}


class NumPyStates:
    """Random states on the NumPy backend, and the reference stream."""

    def __init__(self, w):
        self.w = w
        self.s, self.kept, self.log = {}, {}, {}

    def get(self, k):
        if k == "g":
            return np.random.random.__self__
        if k not in self.s:
            self.s[k] = np.random.RandomState(100 + k)
        return self.s[k]

    @staticmethod
    def raw(state):
        t = state.get_state(legacy=True)
        return (t[0], t[1].tobytes()) + tuple(t[2:])

    def seed(self, k, seed):
        if k == "g":
            np.random.seed(seed)
        else:
            self.s[k] = np.random.RandomState(seed)

    def keep(self, k):
        self.kept[k] = self.get(k).get_state(legacy=True)

    def back(self, k):
        if k not in self.kept:
            return
        if k != "g":
            self.s[k] = np.random.RandomState(0)
        self.get(k).set_state(self.kept[k])

    def use(self, k, n):
        self.get(k).randn(n)

    def position(self, k):
        return self.raw(self.get(k))

    def others(self, k):
        return {j: self.position(j) for j in ["g", *self.s] if j != k}

    def pre(self, k):
        r = np.random.RandomState(0)
        r.set_state(self.get(k).get_state(legacy=True))
        return r

    def call(self, k, o, n):
        B = self.w.x.B
        if k == "g":
            return B.sample(o, num=n)
        st, y = B.sample(self.get(k), o, num=n)
        if not isinstance(st, np.random.RandomState):
            raise Mismatch("state", f"the returned random state is {type(st).__name__}")
        self.s[k] = st
        return y

    def check(self, k, s, o, y, ref, stats):
        """`ref`: the state before the call."""
        w = self.w
        d, i = w.describe(s), s["i"]
        c = world.clone(o, w.x.M)
        st = rand.Stub()
        w.x.B.sample(st, c, num=s["p"]["n"])
        noise = ref.randn(st.n)
        st = rand.Stub(noise)
        y0 = w.x.B.sample(st, world.clone(o, w.x.M), num=s["p"]["n"])[1]
        compare(w, s, y, y0)
        if self.position(k) != self.raw(ref):
            raise Mismatch("stream", f"{d}: afterwards the {name(k)} random state is not where the {st.n} draws of this call end", i)
        return st.n

    def after_failure(self, k, s, ref, o):
        """The state is somewhere between before the call and after all of its draws."""
        w = self.w
        pos = self.position(k)
        if pos == self.raw(ref):
            return
        st = rand.Stub()
        try:
            w.x.B.sample(st, world.clone(o, w.x.M), num=s["p"]["n"])
            n = st.n
        except Exception:
            n = 200
        for _ in range(n):
            ref.randn()
            if pos == self.raw(ref):
                return
        raise Mismatch("stream-failed", f"{w.describe(s)} failed and left the {name(k)} random state neither where it was nor later in its stream", s["i"])


def stub_normal(lib, key, shape=(), dtype=float, **kw):
    """A fixed function of the key, cheaper than the real one."""
    r = np.random.default_rng(np.asarray(key).tolist())
    return lib.jnp.asarray(r.standard_normal(tuple(int(d) for d in shape)).astype(np.dtype(dtype)))


class JAXStates:
    def __init__(self, w):
        self.w = w
        self.jax, self.B = w.lib.jax, w.x.B
        self.s, self.kept, self.used = {}, {}, {}
        self.rec = []

    def normal(self, key, *a, **kw):
        self.rec.append(np.asarray(key).tobytes())
        return stub_normal(self.w.lib, key, *a, **kw)

    def install(self):
        self.real = self.jax.random.normal
        self.jax.random.normal = self.normal
        self.B.jax_global_random_state = self.jax.random.PRNGKey(0)

    def remove(self):
        self.jax.random.normal = self.real

    def get(self, k):
        if k == "g":
            return self.B.jax_global_random_state
        if k not in self.s:
            self.s[k] = self.jax.random.PRNGKey(100 + k)
        return self.s[k]

    def put(self, k, v):
        if k == "g":
            self.B.jax_global_random_state = v
        else:
            self.s[k] = v

    def raw(self, state):
        return np.asarray(state).tobytes()

    def seed(self, k, seed):
        self.put(k, self.jax.random.PRNGKey(seed))
        self.used[k] = set()

    def keep(self, k):
        self.kept[k] = (self.get(k), set(self.used.get(k, ())))

    def back(self, k):
        if k in self.kept:
            v, u = self.kept[k]
            self.put(k, v)
            self.used[k] = set(u)

    def use(self, k, n):
        st, _ = self.B.randn(self.get(k), self.w.lib.jnp.float64, n)
        self.used.setdefault(k, set()).update(self.rec)
        self.put(k, st)

    def position(self, k):
        return self.raw(self.get(k))

    def others(self, k):
        return {j: self.position(j) for j in ["g", *self.s] if j != k}

    def pre(self, k):
        return self.get(k)

    def call(self, k, o, n):
        self.rec = []
        if k == "g":
            y = self.B.sample(o, num=n)
        else:
            self.s[k], y = self.B.sample(self.get(k), o, num=n)
        self.mine = list(self.rec)
        return y

    def check(self, k, s, o, y, ref, stats):
        w, d, i = self.w, self.w.describe(s), s["i"]
        if not isinstance(self.get(k), self.jax.Array):
            raise Mismatch("state", f"{d}: the returned random state is {type(self.get(k)).__name__}", i)
        mine = self.mine
        dup = len(mine) - len(set(mine))
        old = self.used.setdefault(k, set())
        if dup or old & set(mine):
            raise Mismatch("reused", f"{d}: draws with a key that was used before {'in the same call' if dup else 'in this stream'}", i)
        st, y0 = self.B.sample(ref, world.clone(o, w.x.M), num=s["p"]["n"])
        compare(w, s, y, y0)
        if self.raw(st) != self.position(k):
            raise Mismatch("stream", f"{d}: afterwards the {name(k)} random state is not the one returned for an equal state", i)
        if mine and self.raw(ref) == self.position(k):
            raise Mismatch("stream", f"{d}: the {name(k)} random state does not advance", i)
        old.update(mine)
        old.add(self.raw(ref))
        if self.position(k) in old:
            raise Mismatch("reused", f"{d}: the {name(k)} random state is one that was used before", i)
        return len(mine)

    def after_failure(self, k, s, ref, o):
        if self.position(k) != self.raw(ref) and self.position(k) in self.used.get(k, ()):
            raise Mismatch("stream-failed", f"{self.w.describe(s)} failed and moved the {name(k)} random state back", s["i"])


def name(k):
    return "global" if k == "g" else "explicit"


def compare(w, s, y, y0):
    a, b = np.asarray(absval(y)), np.asarray(absval(y0))
    if a.dtype.kind != b.dtype.kind:
        raise Mismatch("dtype", f"{w.describe(s)}: data type {a.dtype}, but {b.dtype} for an equal state and an equal new matrix", s["i"])
    tol = 1e-2 if w.m.tol.get(s["a"][0], 1e-6) > 1e-4 else 1e-6
    e = world.close(a, b, tol, max(1.0, float(np.abs(b).max(initial=0))))
    if e:
        raise Mismatch("sample", f"{w.describe(s)}: differs from what an equal state gives with an equal new matrix: {e}", s["i"])


def execute(prog, stats):
    lib = boot.load(jax=True)
    steps = prog["steps"]
    backend = "jax" if prog["jax"] else "numpy"
    real = [s for s in steps if not s["op"].startswith("r_")]
    models = world.Models(real)
    w0 = world.World(lib, real, backend, models=models)
    tr = faults.Trace()
    dom = {}
    real_normal = lib.jax.random.normal
    try:
        if prog["jax"]:
            lib.jax.random.normal = lambda *a, **k: stub_normal(lib, *a, **k)
        baseline(w0, real, tr, dom)
    finally:
        lib.jax.random.normal = real_normal
    w = world.World(lib, real, backend, models=models)
    S = JAXStates(w) if prog["jax"] else NumPyStates(w)
    by = {}
    for f in prog["faults"]:
        by.setdefault(f["s"], []).append(f)
    np.random.seed(77)
    inj = faults.Injector()
    hist = {}
    if prog["jax"]:
        S.install()
    play(lib, prog, w, w0, S, by, inj, hist, tr, dom, backend, stats)


def baseline(w0, real, tr, dom):
    with faults.active(tr):
        for s in real:
            a = w0.args(s)
            if a is None:
                continue
            if s["op"] in SMP:
                try:
                    with np.errstate(all="ignore"):
                        dom[s["i"]] = world.guard("sample", a, s["p"]) and not known.risky(w0, s)
                except np.linalg.LinAlgError:
                    dom[s["i"]] = False
            tr.start(s["i"])
            twin.run_step(w0, s)
            tr.stop()


def play(lib, prog, w, w0, S, by, inj, hist, tr, dom, backend, stats):
    steps = prog["steps"]
    jkey = lib.B.jax_global_random_state
    try:
        for s in steps:
            op, p, i = s["op"], s.get("p", {}), s["i"]
            if op.startswith("r_"):
                hist.setdefault(p["st"], []).append(op)
                if op == "r_seed":
                    S.seed(p["st"], p["seed"])
                elif op == "r_keep":
                    S.keep(p["st"])
                elif op == "r_back":
                    S.back(p["st"])
                else:
                    S.rec = []
                    S.use(p["st"], p["n"])
                continue
            a = w.args(s)
            if a is None:
                continue
            if op not in SMP:
                npos = NumPyStates.raw(np.random.random.__self__)
                twin.run_step(w, s)
                if NumPyStates.raw(np.random.random.__self__) != npos:
                    raise Mismatch("other-source", f"{w.describe(s)} consumes the global random state", i)
                continue
            if i in w0.exc and dom.get(i) and not prog["jax"] and supported.has("sample", {}, a):
                raise Mismatch("unsupported", f"{w.describe(s)} raises {twin.ename(w0.exc[i])}: {str(w0.exc[i])[:300]}", i)
            if not dom.get(i) or i in w0.exc:
                stats.add("outside the domain")
                continue
            k = "g" if op == "gsample" else p["st"]
            if prog["jax"] and isinstance(lib.B.global_random_state(a[0]), np.random.RandomState):
                stats.add("outside the domain")
                continue
            S.get(k)
            for f in by.get(i, ()):
                pt = tr.resolve(f)
                if pt is None:
                    continue
                ref, oth = S.pre(k), S.others(k)
                with faults.active(inj):
                    inj.arm(f["kind"], pt[0], pt[1])
                    try:
                        S.call(k, a[0], p["n"])
                        done = True
                    except Mismatch:
                        raise
                    except (Exception, KeyboardInterrupt) as e:
                        done = False
                        fired = inj.disarm()
                        if fired is None or not faults.caused_by(e, fired):
                            raise Mismatch("other-exception", f"{w.describe(s)} raises {type(e).__name__}: {str(e)[:200]} when interrupted at {pt[2]}", i)
                        stats.add("fault:" + f["kind"])
                        hist.setdefault(k, []).append("failed")
                    inj.disarm()
                if S.others(k) != oth:
                    raise Mismatch("other-source", f"{w.describe(s)} changes a random state it was not given", i)
                if done:
                    if prog["jax"]:
                        S.used.setdefault(k, set()).update(S.mine)
                else:
                    S.after_failure(k, s, ref, a[0])
            ref, oth = S.pre(k), S.others(k)
            try:
                y = S.call(k, a[0], p["n"])
            except Mismatch:
                raise
            except Exception as e:
                raise Mismatch("exception", f"{w.describe(s)} raises {type(e).__name__}: {str(e)[:300]}, but not on new operands", i)
            if S.others(k) != oth:
                raise Mismatch("other-source", f"{w.describe(s)} changes a random state it was not given", i)
            n = S.check(k, s, a[0], y, ref, stats)
            stats.add("evaluations")
            stats.add("steps")
            stats.add("samplings on " + backend)
            h = hist.setdefault(k, [])
            if n:
                stats.see("distinct", backend, name(k), world.structure(a[0]), np.shape(absval(a[0])), p["n"], h[-2:])
            h.append("sample")
        if not prog["jax"] and lib.B.jax_global_random_state is not jkey:
            raise Mismatch("other-source", "sampling on NumPy changed JAX's global random state")
    finally:
        if prog["jax"]:
            S.remove()
