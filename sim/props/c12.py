"""C12: matrices survive save, crash and restore at any point of their life."""
import copy
import io
import pickle

import numpy as np

import arrays
import boot
import faults
import gen
import ops
import snap
import twin
import world
import zygote
from ops import OPS
from world import Mismatch, absval, kindof, structure

QUICK = 5000
THOROUGH = 150000
RULE = ("one evaluation is one matrix saved and restored (pickled or deep-copied, between or inside calls) whose copy is "
        "compared with the original and then used; distinct = (structure, what was already computed, way of saving, "
        "source position of the save); non-trivial = the matrix had been used before or was saved inside a call")
ASSUMPTIONS = ["durable state is the pickled bytes; the process that saved them ends before another restores them",
               "saving inside a call happens between two lines of the library, as another thread would", "NumPy backend"]
LISTS = ["saves", "faults", "steps"]
STUBS = "the file that is written to (short, failing and torn writes); the process that restores is a real new process"
BASE = {"hash": "0", "modules": ["props.c12", "arrays", "gen", "world", "twin", "monitor"]}
WAYS = ["deepcopy", "deepcopy", "pickle0", "pickle2", "pickle4", "pickle5", "buffers", "file"]


def generate(r, idx, thorough=False):
    g = gen.G(r, off=["gc"], boost={"chol": 2, "schur": 2, "dense": 1.5, "pd_inv": 1.5, "logdet": 1.5})
    g.program(r.choice([1, 2, 3]), r.choice([3, 5, 8] if not thorough else [5, 8, 12]))
    steps = g.steps
    ops_ = [s["i"] for s in steps if s["op"] not in ("arr", "scal")]
    saves = []
    for _ in range(r.choice([1, 2, 3])):
        saves.append({"s": r.choice(ops_) if ops_ else 0, "mid": round(r.random(), 4) if r.random() < 0.4 else None,
                      "way": r.choice(WAYS), "u": round(r.random(), 4), "seed": r.randrange(1 << 30),
                      "after": r.choice(["use", "use", "mutate-copy", "mutate-original", "process" if r.random() < 0.5 else "use"])})
    fs = faults.random_faults(r, steps, n=r.choice([1, 2])) if r.random() < 0.4 else []
    return {"steps": steps, "saves": saves, "faults": fs}


# Saving and restoring


class File(io.RawIOBase):
    """A simulated file: everything written, up to the point at which the disk is full."""

    def __init__(self, room=None):
        self.data, self.room = bytearray(), room

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        if self.room is not None and len(self.data) + len(b) > self.room:
            self.data += b[: max(0, self.room - len(self.data))]
            raise OSError(28, "No space left on device (simulated)")
        self.data += b
        return len(b)


def save(o, way, r, stats):
    """Bytes, or the copy itself."""
    if way == "deepcopy":
        return None, copy.deepcopy(o)
    if way == "buffers":
        bufs = []
        b = pickle.dumps(o, protocol=5, buffer_callback=bufs.append)
        # Out-of-band buffers are written out, as a transport would do.
        return None, pickle.loads(b, buffers=[bytearray(x.raw()) for x in bufs])
    if way == "file":
        # First a full disk, then a successful attempt.
        size = len(pickle.dumps(o))
        f = File(r.randrange(size))
        try:
            pickle.dump(o, f)
        except OSError:
            stats.add("fault:full disk")
        try:
            pickle.loads(bytes(f.data))
        except Exception:
            stats.add("fault:torn file rejected")
        else:
            raise Mismatch("torn", f"an incomplete save of {kindof(o)} can be restored")
        f = File()
        pickle.dump(o, f)
        b = bytes(f.data)
        return b, pickle.loads(b)
    b = pickle.dumps(o, protocol=int(way[-1]))
    return b, pickle.loads(b)


def reach(o, seen=None, out=None):
    """All arrays reachable from an object's attributes."""
    if out is None:
        seen, out = set(), []
    if id(o) in seen:
        return out
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        out.append(o)
        if isinstance(o.base, np.ndarray):
            reach(o.base, seen, out)
    elif kindof(o) in world.MATRIX_TYPES:
        for v in list(vars(o).values()):
            reach(v, seen, out)
    elif isinstance(o, (list, tuple)):
        for v in o:
            reach(v, seen, out)
    elif isinstance(o, dict):
        for v in o.values():
            reach(v, seen, out)
    return out


def computed(o):
    """Which results an object has saved (only to tell runs apart)."""
    if kindof(o) not in world.MATRIX_TYPES:
        return ()
    return tuple(sorted(k for k, v in vars(o).items() if v is not None))


def same(c, o, what, i):
    if type(c) is not type(o) or structure(c) != structure(o):
        raise Mismatch("restored", f"{what} is {structure(c)}, but the original is {structure(o)}", i)
    try:
        x = snap.of(o)
    except Exception:
        return
    try:
        y = snap.of(c)
    except Exception as e:
        raise Mismatch("restored", f"{what} is unusable: {type(e).__name__}: {e}", i)
    if repr(c) != repr(o):
        raise Mismatch("restored", f"{what} prints as {repr(c)}, but the original as {repr(o)}", i)
    if x != y:
        raise Mismatch("restored", f"{what} differs from the original: {snap.diff(x, y)}", i)


def calls(w, o, r, n):
    """Some calls with `o`: [(name, p, number of times `o` is passed)]."""
    out = []
    for _ in range(n):
        name, p = r.choice(twin.PROBES) if r.random() < 0.85 else r.choice(twin.BIN)
        k = 2 if name in ("add", "mm", "mul") else 1
        if name in ("schur", "pd_schur") and kindof(o) != "Woodbury":
            continue
        try:
            sh = np.shape(absval(o))
            if name == "mm" and sh[-1] != sh[-2]:
                continue
            with np.errstate(all="ignore"):
                if not world.guard(name, [o] * k, p):
                    continue
        except (np.linalg.LinAlgError, ops.Skip, ValueError):
            continue
        out.append((name, p, k))
    return out


def make(x, o, cs):
    """Outcomes of calls."""
    out = []
    for name, p, k in cs:
        try:
            out.append(("ok", OPS[name].call(x, [o] * k, p)))
        except Exception as e:
            out.append(("exc", e))
    return out


def compare(a, b, cs, w, i, what):
    for (name, p, k), (s0, r0), (s1, r1) in zip(cs, a, b):
        d = f"{name}(#{i}:{kindof(w.o[i])})"
        if s0 != s1 or s0 == "exc" and type(r0) is not type(r1):
            raise Mismatch("used", f"{d} {what}: {word(s1, r1)}, but {word(s0, r0)} for the original", i)
        if s0 == "exc":
            continue
        if name == "shape":
            if twin._plain(r0) != twin._plain(r1):
                raise Mismatch("used", f"{d} {what}: {r1}, but {r0} for the original", i)
        elif name != "repr":
            try:
                twin.same(r1, r0, w.m.tol.get(i, 1e-6), w.m.scale.get(i, 1.0), d, " " + what, i)
            except Mismatch as e:
                e.sig = "used-" + e.sig
                raise


def word(s, r):
    return f"raises {type(r).__name__}: {str(r)[:200]}" if s == "exc" else "completes"


def remote(blob, cs):
    """In the new process: restore, describe, use, save again."""
    import warnings

    import engine

    lib = boot.load()
    engine.reset_process()
    x = world.X(lib)
    try:
        o = pickle.loads(blob)
    except Exception as e:
        return ("failed", f"{type(e).__name__}: {e}")
    res = make(x, o, cs)
    return ("ok", snap.of(o), [plain(q) for q in res], pickle.dumps(o))


def plain(q):
    s, r = q
    if s == "exc":
        return ("exc", type(r).__name__, str(r)[:200])
    if isinstance(r, str):
        return ("ok", "str", r)
    if isinstance(r, tuple):
        return ("ok", "tuple", [plain(("ok", y)) for y in r])
    try:
        return ("ok", repr(structure(r)), np.asarray(absval(r)))
    except Exception as e:
        return ("ok", repr(structure(r)), f"{type(e).__name__}")


def shared(c, o):
    """Whether copy and original share memory that can be written to."""
    for a in reach(c):
        for b in reach(o):
            if a.flags.writeable and a.size and b.size and np.shares_memory(a, b):
                return True
    return False


def visit(w, w0, i, sv, stats, where, inside=False):
    """Save object #i now, restore it, and compare."""
    o = w.o[i]
    r = arrays.rng("save", sv["seed"], i)
    what = f"the {'deep copy' if sv['way'] == 'deepcopy' else 'restored save'} of #{i}:{kindof(o)} made {where}"
    before = snap.of(o)
    have = {k: id(v) for k, v in vars(o).items()}
    try:
        blob, c = save(o, sv["way"], r, stats)
    except Mismatch:
        raise
    except Exception as e:
        raise Mismatch("save", f"#{i}:{kindof(o)} cannot be saved and restored ({sv['way']}) {where}: {type(e).__name__}: {e}", i)
    if snap.of(o) != before:
        raise Mismatch("saving", f"saving #{i}:{kindof(o)} {where} changed it: {snap.diff(before, snap.of(o))}", i)
    lost = [k for k, v in have.items() if id(vars(o).get(k)) != v]
    if lost:
        raise Mismatch("saving", f"saving #{i}:{kindof(o)} {where} changed its {', '.join(lost)}", i)
    same(c, o, what, i)
    if shared(c, o):
        raise Mismatch("shared", f"{what} shares memory with the original", i)
    stats.add("evaluations")
    stats.see("distinct", structure(o), computed(o), sv["way"], where if inside else "")
    stats.add("fault:saved inside a call" if inside else "saved between calls")
    return blob, c, r


def use(w, w0, i, sv, blob, c, r, stats, where):
    """Use copy and original, in this process or in another."""
    o = w.o[i]
    x = w.x
    what = f"on its copy made {where}"
    if i in w.taint:
        return
    after = sv["after"]
    cs = calls(w, o, r, 4)
    if after == "process" and blob is not None:
        a = [plain(q) for q in make(x, o, cs)]
        z = zygote.get(BASE).call("props.c12", "remote", blob, cs)
        stats.add("fault:crash and restore in a new process")
        if z[0] == "failed":
            raise Mismatch("restore", f"#{i}:{kindof(o)}, saved {where}, cannot be restored in another process: {z[1]}", i)
        if z[1] != snap.of(o):
            raise Mismatch("restored", f"#{i}:{kindof(o)}, saved {where}, differs in another process: {snap.diff(snap.of(o), z[1])}", i)
        for q, p, y in zip(cs, a, z[2]):
            d = f"{q[0]}(#{i}:{kindof(o)}), saved {where},"
            if p[:2] != y[:2]:
                raise Mismatch("used", f"{d} gives {y[:2]} in another process, but {p[:2]} here", i)
            if p[0] == "ok" and isinstance(p[2], np.ndarray) and p[2].dtype.kind in "fiub":
                v, u = p[2], y[2]
                e = f"data type {u.dtype} instead of {v.dtype}" if v.dtype.kind != u.dtype.kind else world.close(u, v, w.m.tol.get(i, 1e-6), max(w.m.scale.get(i, 1.0), float(np.abs(v).max(initial=0)) if v.dtype != bool else 1.0))
                if e and np.isfinite(v).all():
                    raise Mismatch("used", f"{d} in another process: {e}", i)
        return
    if after == "mutate-copy":
        # Whatever happens to the copy does not reach the original.
        s0 = snap.of(o)
        for a in reach(c):
            scribble(a)
        if snap.of(o) != s0:
            raise Mismatch("shared", f"writing to the copy of #{i}:{kindof(o)} made {where} changes the original: {snap.diff(s0, snap.of(o))}", i)
        f = world.clone(o, x.M)
        compare(make(x, f, cs), make(x, o, cs), cs, w, i, f"after its copy made {where} was overwritten")
        return
    f = world.clone(o, x.M)
    if after == "mutate-original":
        # The original is overwritten after another deep copy of it was set aside.
        keep = copy.deepcopy(o)
        s0 = snap.of(c)
        old = [(a, a.copy()) for a in reach(o) if a.flags.writeable]
        try:
            for a, _ in old:
                scribble(a)
            if snap.of(c) != s0:
                raise Mismatch("shared", f"writing to the original changes the copy of #{i}:{kindof(o)} made {where}: {snap.diff(s0, snap.of(c))}", i)
            got = make(x, c, cs)
        finally:
            for a, v in old:
                a[...] = v
        compare(make(x, f, cs), got, cs, w, i, f"{what}, after the original was overwritten")
        del keep
        return
    # Copy first, then the original: neither affects the other.
    b = make(x, c, cs)
    a = make(x, f, cs)
    compare(a, b, cs, w, i, what)
    compare(a, make(x, o, cs), cs, w, i, f"after its copy made {where} was used")


def scribble(a):
    if a.flags.writeable and a.ndim and a.dtype != object:
        a[...] = 0 if a.dtype == bool else 93


def targets(w, sv, limit=3):
    c = [i for i, o in w.o.items() if kindof(o) in world.MATRIX_TYPES]
    k = int(sv["u"] * len(c)) if c else 0
    return (c[k:] + c[:k])[:limit]


def execute(prog, stats):
    lib = boot.load()
    steps = prog["steps"]
    w0 = world.World(lib, steps)
    tr = faults.Trace()
    with faults.active(tr):
        if not twin.baseline(w0, steps, tr):
            stats.add("baseline already wrong")
            return
    stats.add("steps", tr.lines())
    fby, sby = {}, {}
    for f in prog["faults"]:
        fby.setdefault(f["s"], []).append(f)
    for sv in prog["saves"]:
        sby.setdefault(sv["s"], []).append(sv)
    w = world.World(lib, steps, models=w0.m)
    inj = faults.Injector()
    later = []
    with faults.active(inj):
        for s in steps:
            i = s["i"]
            if w.args(s) is None:
                continue
            for f in fby.get(i, ()):
                pt = tr.resolve(f)
                if pt is not None:
                    inj.arm(f["kind"], pt[0], pt[1])
                    twin.run_step(w, s)
                    if inj.disarm() is not None:
                        stats.add("fault:" + f["kind"])
                    w.o.pop(i, None)
            mids = [sv for sv in sby.get(i, ()) if sv["mid"] is not None]
            n, plan = len(tr.ev.get(i, {"L": ()})["L"]), {}
            for sv in mids:
                if n:
                    plan.setdefault(min(int(sv["mid"] * n), n - 1), []).append(sv)
            cnt, found = [0], []

            def extra(code, line):
                k = cnt[0]
                cnt[0] += 1
                if k in plan:
                    import monitor

                    where = f"inside {s['op']} at {monitor.site(code)}:{line}"
                    inj.extra = None
                    for sv in plan[k]:
                        for j in targets(w, sv):
                            try:
                                later.append((j, sv, where, *visit(w, w0, j, sv, stats, where, True)))
                            except Mismatch as e:
                                found.append(e)
                    inj.extra = extra

            inj.extra = extra if plan else None
            twin.run_step(w, s)
            inj.extra = None
            if found:
                raise found[0]
            twin.compare(w, w0, s, what=" after saves and interrupted calls")
            w.taint |= w0.taint
            for sv in sby.get(i, ()):
                if sv["mid"] is None:
                    where = f"after step {i}"
                    for j in targets(w, sv):
                        later.append((j, sv, where, *visit(w, w0, j, sv, stats, where)))
            # Copies are used while the program goes on.
            while later and len(later) > 2:
                j, sv, where, blob, c, r = later.pop(0)
                use(w, w0, j, sv, blob, c, r, stats, where)
        for j, sv, where, blob, c, r in later:
            use(w, w0, j, sv, blob, c, r, stats, where)
    w.taint |= w0.taint
    try:
        w.audit()
    except Mismatch:
        try:
            w0.audit()
        except Mismatch:
            stats.add("baseline already wrong")
            return
        raise
