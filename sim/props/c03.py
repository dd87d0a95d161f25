"""C03: a call cut short at any instant leaves every matrix fully usable."""
import arrays
import boot
import faults
import gen
import twin
import world
from world import Mismatch

QUICK = 12000
THOROUGH = 400000
RULE = ("one evaluation is one fault delivered inside a call, after which the call is repeated and all later calls "
        "and objects are compared with a fault-free execution; distinct = (operation, operand structures, kind, source "
        "position of the fault); non-trivial = the fault was actually delivered inside the library")
ASSUMPTIONS = ["exceptions arrive at line boundaries of the library, on entry to array-layer functions and kernels, or out of warnings",
               "NumPy backend", "runs whose fault-free execution is already wrong are left to C01"]
LISTS = ["faults", "steps"]
STUBS = "the sources of failure: interrupts, allocations, kernels and warning hooks fail on command"


def generate(r, idx, thorough=False):
    g = gen.G(r, off=["gc"], boost={"chol": 1.5, "pd_inv": 1.5, "schur": 2, "root": 1.5, "sample": 2, "dense": 1.5})
    g.program(r.choice([1, 2, 3]), r.choice([2, 4, 6, 8] if not thorough else [4, 8, 12]))
    steps = g.steps
    fs = faults.random_faults(r, steps)
    for f in fs:
        if r.random() < 0.15:
            f["noretry"] = 1
    return {"steps": steps, "faults": fs, "probe": r.randrange(1 << 30)}


def execute(prog, stats):
    lib = boot.load()
    steps = prog["steps"]
    w0 = world.World(lib, steps)
    tr = faults.Trace()
    with faults.active(tr):
        if not twin.baseline(w0, steps, tr):
            stats.add("baseline already wrong")
            return
    stats.add("steps", tr.lines())
    by = {}
    for f in prog["faults"]:
        by.setdefault(f["s"], []).append(f)
    w = world.World(lib, steps, models=w0.m)
    inj = faults.Injector()
    with faults.active(inj):
        for s in steps:
            i = s["i"]
            a = w.args(s)
            if a is None:
                continue
            retry = True
            for f in by.get(i, ()):
                pt = tr.resolve(f)
                if pt is None:
                    stats.add("faults without a point")
                    continue
                inj.arm(f["kind"], pt[0], pt[1])
                st = twin.run_step(w, s)
                fired = inj.disarm()
                if fired is None:
                    stats.add("faults not reached")
                    continue
                stats.add("fault:" + f["kind"])
                stats.add("evaluations")
                stats.see("distinct", s["op"], [world.structure(o) for o in a], f["kind"], pt[2])
                stats.mark("fault_sites", pt[2])
                what = f" although {faults.EXC.get(f['kind'], type(fired)).__name__} was injected at {pt[2]}"
                if st == "ok":
                    stats.add("faults survived by the call")
                    if not w0.exc.get(i):
                        twin.compare(w, w0, s, what=what)
                else:
                    e = w.exc[i]
                    if not faults.caused_by(e, fired) and type(e) is not type(w0.exc.get(i)):
                        raise Mismatch("other-exception", f"{w0.describe(s)} raises {type(e).__name__}: {str(e)[:200]}{what}", i)
                if f.get("noretry"):
                    retry = False
                w.o.pop(i, None)
                del fired
            if retry:
                twin.run_step(w, s)
                twin.compare(w, w0, s, what=" after interrupted calls")
            else:
                w.exc.pop(i, None)
        w.taint |= w0.taint
    try:
        w.audit()
    except Mismatch as e:
        # Deferred values may only show now; they are the library's own if the fault-free
        # execution has them too.
        try:
            w0.audit()
        except Mismatch:
            stats.add("baseline already wrong")
            return
        raise
    r = arrays.rng("probe", prog["probe"])
    mats = [i for i, o in w.o.items() if world.kindof(o) in world.MATRIX_TYPES]
    r.shuffle(mats)
    twin.probe(w, mats[:4], r, 3, stats, " after interrupted calls")
