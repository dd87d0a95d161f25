"""C04: threads sharing matrices get the sequential results and make progress."""
import numpy as np

import arrays
import boot
import faults
import gen
import threads
import twin
import world
from engine import digest
from world import Mismatch

QUICK = 9000
THOROUGH = 300000
RULE = ("one evaluation is one call made by a simulated thread while others are inside calls on the same matrices, compared "
        "with a sequential execution; distinct = distinct interleavings (sequence of preemptions: source position and thread "
        "switched to); non-trivial = at least one preemption inside the library")
ASSUMPTIONS = ["threads are preempted at line or bytecode boundaries of the library; the array layer's own code runs uninterrupted",
               "NumPy backend", "runs whose sequential execution is already wrong are left to C01"]
LISTS = ["us", "plan", "faults", "steps"]
STUBS = "the thread scheduler; locks made by the library"
BOOST = {"chol": 3, "dense": 2, "schur": 4, "pd_inv": 3, "inv": 2, "logdet": 3, "root": 2, "iqf": 2, "ratio": 2,
         "sample": 2, "diag": 1.5, "add": 1.5}


def program(r, boost, nthreads, thorough=False, off=()):
    """Steps for set-up, for every thread, and for afterwards."""
    g = gen.G(r, off=["gc", "bad", "new", *off], boost=boost, keep=("chol", "dense"))
    for _ in range(r.choice([1, 1, 2, 3])):
        g.matrix(r.choice(["pd", "pd", "pd", None, "psd", "inv"]))
    while not g.slots:
        g.matrix()
    k = 0
    while k < r.choice([0, 0, 1, 3]):
        g.step()
        k += 1
    setup = len(g.steps)
    base = dict(g.slots)
    allslots = dict(base)
    ths = [list(range(setup))]
    for t in range(nthreads):
        g.slots = dict(base)
        n0 = len(g.steps)
        if t and r.random() < 0.4:
            # The same calls as the thread before.
            shift = {}
            for i in ths[-1]:
                s = g.steps[i]
                if len(ths) == 1:
                    break
                x = g.emit(s["op"], [shift.get(j, j) for j in s["a"]], s.get("p"), nt=allslots[i].nt if i in allslots else None)
                if x is None:
                    break
                shift[i] = x.i
        else:
            for _ in range(r.choice([1, 1, 2, 3] if not thorough else [1, 2, 3, 5])):
                g.step()
        ths.append(list(range(n0, len(g.steps))))
        allslots.update(g.slots)
    g.slots = allslots
    for _ in range(r.choice([1, 2, 3])):
        g.step()
    steps = g.steps
    for k, ids in enumerate(ths[1:]):
        for i in ids:
            steps[i]["t"] = k
    for s in steps[:setup]:
        s["t"] = -1
    return steps


def make_plan(r, instr):
    m = r.choice([1, 2, 3, 8, 8, 25])
    mean = r.choice([2, 8, 30, 100, 300]) * (6 if instr else 1)
    return [[r.randrange(12), max(1, int(r.expovariate(1 / mean)))] for _ in range(m)]


READS = ["sum", "mean", "diag", "getitem", "take", "submatrix", "mm", "mmd", "mul", "add", "sub", "neg", "T", "dense", "chol", "inv", "pd_inv", "logdet",
         "iqf", "iqf_diag", "solve", "kron", "sample", "repr", "block", "trace", "abs", "tile", "to_numpy"]


def visit_program(r, thorough=False):
    """Set-up, a single call (the visited one), and what another thread calls on the same
    matrices whilst it is under way."""
    g = gen.G(r, off=["gc", "bad", "new"], focus=0)
    new = []
    while not new:
        for _ in range(r.choice([1, 1, 2])):
            t = r.choice(list(gen.TYPED))
            s = g.typed(t, r.choice(gen.TYPED[t]))
            if s is not None:
                new.append(s)
    mats = {s.i: s for s in new}

    def some(names, slots, tries=30):
        old = g.slots
        g.slots = dict(slots)
        n0 = len(g.steps)
        for _ in range(tries):
            if gen.GENS[r.choice(names)](g) is not None:
                break
        g.slots.update({k: v for k, v in old.items() if k not in g.slots})
        return list(range(n0, len(g.steps)))

    names = [x for x in gen.GENS if x not in ("new", "gc", "chain", "bad", "gsample")]
    for _ in range(r.choice([0, 0, 1, 2])):
        some(names, mats)
    setup = len(g.steps)
    before = dict(g.slots)
    a = some(names, mats)
    used = {j: before[j] for i in a for j in g.steps[i]["a"] if j in before}
    b = []
    if r.random() < 0.4:
        # The same call, on the same matrices or on others.
        g.slots = dict(before)
        shift = {}
        for i in a:
            s = g.steps[i]
            x = g.emit(s["op"], [shift.get(j, j) for j in s["a"]], s.get("p"), nt="?")
            if x is not None:
                shift[i] = x.i
                b.append(x.i)
    else:
        reads = [x for x in READS if x in gen.GENS]
        for _ in range(r.choice([1, 2, 2])):
            g.slots = dict(before)
            b += some(reads if r.random() < 0.7 else names, used or mats)
    g.slots = dict(before)
    some(names, mats)
    for i, s in enumerate(g.steps):
        if i < setup:
            s["t"] = -1
        elif i in a:
            s["t"] = 0
        elif i in b:
            s["t"] = 1
    return g.steps


def generate(r, idx, thorough=False):
    if r.random() < 0.5:
        return {"mode": "visit", "steps": visit_program(r, thorough), "n": 2, "us": [r.random() for _ in range(r.choice([2, 3, 4]))],
                "plan": [], "instr": 0, "faults": [], "probe": r.randrange(1 << 30)}
    n = r.choice([2, 2, 2, 3, 4])
    steps = program(r, BOOST, n, thorough)
    instr = int(r.random() < 0.3)
    fs = []
    if r.random() < 0.25:
        fs.append({"t": r.randrange(n), "at": int(r.expovariate(1 / 60) * (6 if instr else 1)) + 1, "kind": r.choice(["park", "park", "KI", "ME"])})
    return {"steps": steps, "n": n, "plan": make_plan(r, instr), "instr": instr, "faults": fs, "probe": r.randrange(1 << 30)}


def split(prog):
    setup = [s for s in prog["steps"] if s.get("t") == -1]
    per = [[s for s in prog["steps"] if s.get("t") == k] for k in range(prog["n"])]
    post = [s for s in prog["steps"] if s.get("t") is None]
    return setup, per, post


def concurrent(prog, w, w0, budget, stats, before=None, on_event=None):
    """Run the threads' steps in `w`. Returns the scheduler."""
    setup, per, post = split(prog)

    def body(ss):
        def f(t):
            for s in ss:
                if before is not None:
                    before(t, s)
                t.step = s["i"]
                twin.run_step(w, s)
        return f

    sch = threads.Sched([body(ss) for ss in per], [list(p) for p in prog["plan"]], budget, bool(prog["instr"]), on_event)
    for f in prog["faults"]:
        t = sch.t[f["t"] % len(sch.t)]
        if f["kind"] == "park":
            t.park_at = f["at"]
        else:
            t.fault_at, t.fault = f["at"], faults.EXC[f["kind"]]
    sch.go()
    for f in prog["faults"]:
        t = sch.t[f["t"] % len(sch.t)]
        if f["kind"] == "park":
            if t.events >= f["at"]:
                stats.add("fault:park")
        elif t.fired is not None:
            stats.add("fault:" + f["kind"])
    stats.add("steps", sch.events)
    stats.add("preemptions", sch.switches)
    stats.see("distinct", sch.trail) if sch.switches > len(per) else None
    for x in sch.trail:
        stats.mark("preemption_sites", f"{x[1]}:{x[2]}")
    return sch


def after(prog, w, w0, sch, stats, what):
    """Results of the threads and of everything after them."""
    setup, per, post = split(prog)
    for k, ss in enumerate(per):
        t = sch.t[k]
        for s in ss:
            i = s["i"]
            e = w.exc.get(i)
            if e is not None and t.fired is not None and faults.caused_by(e, t.fired):
                w.exc.pop(i)
                continue
            twin.compare(w, w0, s, what=what)
            stats.add("evaluations")


def raw(o, out, path="", depth=0):
    """Everything an object holds, by position."""
    if isinstance(o, np.ndarray):
        out[path] = (id(o), o.shape, o.tobytes() if o.nbytes <= 4096 else 0)
    elif world.kindof(o) in world.MATRIX_TYPES and depth < 6:
        out[path] = id(o)
        for k, v in vars(o).items():
            raw(v, out, f"{path}.{k}", depth + 1)
    elif isinstance(o, (list, tuple)) and len(o) < 20:
        for k, v in enumerate(o):
            raw(v, out, f"{path}[{k}]", depth + 1)
    else:
        out[path] = id(o)
    return out


def moments(prog, lib, steps, setup, w0, budget, stats):
    """The number of events of the visited call, and those at which a matrix holds something
    that it neither held before the call nor holds after it."""
    w = world.World(lib, steps, models=w0.m)
    for s in setup:
        twin.run_step(w, s)
    objs = [o for i, o in sorted(w.o.items()) if world.kindof(o) in world.MATRIX_TYPES or isinstance(o, np.ndarray)]
    seen = []
    sch = concurrent({**prog, "steps": [s for s in steps if s.get("t") != 1], "n": 1, "plan": [], "faults": []}, w, w0, budget,
                     stats, on_event=lambda: seen.append(raw(objs, {})))
    if not seen:
        return 0, []
    first, last = seen[0], raw(objs, {})
    odd = [k for k, x in enumerate(seen) if x is not first and any(v != first.get(p) and v != last.get(p) for p, v in x.items())]
    return len(seen), odd


def visit(prog, stats, lib):
    steps = prog["steps"]
    setup, per, post = split(prog)
    w0 = world.World(lib, steps)
    tr = faults.Trace()
    with faults.active(tr, warn=False, kernels=False):
        if not twin.baseline(w0, setup + per[0] + per[1] + post, tr):
            stats.add("baseline already wrong")
            return
    budget = tr.lines() * 10 + 3000
    n, odd = moments(prog, lib, steps, setup, w0, budget, stats)
    if not n:
        return
    at = [int(u * n) for u in prog["us"]]
    if odd:
        stats.add("calls during which a matrix holds something else")
        at += [odd[0], odd[len(odd) // 2], odd[-1]]
    for k, q in enumerate(sorted(set(at))):
        w = world.World(lib, steps, models=w0.m)
        for s in setup:
            twin.run_step(w, s)
        sch = concurrent({**prog, "plan": [[0, q + 1], [1, 1 << 30]]}, w, w0, budget, stats)
        after(prog, w, w0, sch, stats, " when called from concurrent threads")
        if k == 0:
            for s in post:
                if w.args(s) is not None:
                    twin.run_step(w, s)
                    twin.compare(w, w0, s, what=" after concurrent calls")


def execute(prog, stats):
    lib = boot.load()
    if prog.get("mode") == "visit":
        return visit(prog, stats, lib)
    steps = prog["steps"]
    setup, per, post = split(prog)
    w0 = world.World(lib, steps)
    tr = faults.Trace()
    with faults.active(tr, warn=False, kernels=False):
        if not twin.baseline(w0, setup + [s for ss in per for s in ss] + post, tr):
            stats.add("baseline already wrong")
            return
    w = world.World(lib, steps, models=w0.m)
    for s in setup:
        twin.run_step(w, s)
    budget = (tr.lines() * 10 + 3000) * (20 if prog["instr"] else 1)
    sch = concurrent(prog, w, w0, budget, stats)
    after(prog, w, w0, sch, stats, " when called from concurrent threads")
    for s in post:
        if w.args(s) is None:
            continue
        twin.run_step(w, s)
        twin.compare(w, w0, s, what=" after concurrent calls")
    w.taint |= w0.taint
    try:
        w.audit()
    except Mismatch:
        try:
            w0.audit()
        except Mismatch:
            stats.add("baseline already wrong")
            return
        raise
    r = arrays.rng("probe", prog["probe"])
    mats = [i for i, o in w.o.items() if world.kindof(o) in world.MATRIX_TYPES]
    r.shuffle(mats)
    twin.probe(w, mats[:3], r, 3, stats, " after concurrent calls")
