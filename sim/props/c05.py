"""C05: calls leave the process-wide settings as they found them."""
import ambient
import arrays
import boot
import faults
import gen
import monitor
import twin
import world
from world import Mismatch

QUICK = 8000
THOROUGH = 250000
RULE = ("one evaluation is one snapshot of the process-wide settings compared with the one before the call: after a call "
        "completed, failed or was interrupted, or by another thread at a chosen position inside a call; distinct = (operation, "
        "operand structures, how it ended / source position of the look); non-trivial = the library ran in between")
ASSUMPTIONS = ["the settings listed in sim/ambient.py", "NumPy backend", "warnings are displayed by a simulated hook during the runs"]
LISTS = ["faults", "looks", "steps"]
STUBS = "the sources of failure and the observing thread"


def generate(r, idx, thorough=False):
    g = gen.G(r, off=["gc"], gsample=0.7, boost={"bad": 2, "sample": 2, "root": 2, "chol": 1.5})
    g.program(r.choice([2, 3]), r.choice([4, 6, 9] if not thorough else [6, 10, 14]))
    looks = [{**f, "kind": "KI"} for f in faults.random_faults(r, g.steps, kinds=["KI"], n=r.choice([2, 4, 8]))]
    # What the process has set before the calls, so that no setting is changed to what it was.
    err = {k: r.choice(["ignore", "warn", "warn", "print"]) for k in ("divide", "over", "under", "invalid")}
    return {"steps": g.steps, "err": err, "opts": r.randrange(1 << 30) if r.random() < 0.5 else 0, "faults": faults.random_faults(r, g.steps, n=r.choice([1, 2, 4, 8])) if r.random() < 0.8 else [], "looks": looks}


def execute(prog, stats):
    lib = boot.load()
    import numpy as np

    opts = np.get_printoptions()
    try:
        settings(lib, prog)
        play(lib, prog, stats)
    finally:
        np.set_printoptions(**opts)


def settings(lib, prog):
    """Settings the calls find; `reset_process` undoes them before the next run."""
    import sys
    import warnings

    import numpy as np

    np.seterr(**prog["err"])
    if not prog["opts"]:
        return
    r = arrays.rng("settings", prog["opts"])
    np.set_printoptions(precision=r.choice([3, 8, 12]), suppress=r.random() < 0.5, linewidth=r.choice([60, 75, 120]))
    if r.random() < 0.5:
        lib.B.epsilon = r.choice([1e-12, 1e-10, 1e-8])
    if r.random() < 0.5:
        lib.B.cholesky_retry_factor = r.choice([1, 10, 100])
    if r.random() < 0.5:
        sys.setrecursionlimit(r.choice([900, 1200, 3000]))
    for _ in range(r.choice([0, 1, 2])):
        warnings.filterwarnings(r.choice(["ignore", "default", "once"]), message=r.choice(["", "Converting", "x"]))


def play(lib, prog, stats):
    steps = prog["steps"]
    w0 = world.World(lib, steps)
    tr = faults.Trace()
    import numpy as np

    with faults.active(tr):
        for s in steps:
            if w0.args(s) is None:
                continue
            tr.start(s["i"])
            twin.run_step(w0, s)
            tr.stop()
    by, looks = {}, {}
    for f in prog["faults"]:
        by.setdefault(f["s"], []).append(f)
    for f in prog["looks"]:
        pt = tr.resolve(f)
        if pt is not None:
            looks.setdefault(f["s"], {})[pt[1]] = pt[2]
    w = world.World(lib, steps, models=w0.m)
    inj = faults.Injector()
    ob = ambient.Observer(lib)
    state = {"n": 0, "s": None, "ref": None, "bad": None}

    def extra(code, line):
        s = state["s"]
        if s is None:
            return
        k = state["n"]
        state["n"] = k + 1
        if k in looks.get(s["i"], ()) and state["bad"] is None:
            d = ambient.diff(state["ref"], ob.look(), ("global random state",) if s["op"] == "gsample" else ())
            stats.add("evaluations")
            stats.add("looks from another thread")
            stats.see("distinct", s["op"], "look", looks[s["i"]][k])
            if d:
                state["bad"] = (s, f"{monitor.site(code)}:{line}", d)

    inj.extra = extra
    try:
        with faults.active(inj):
            np.random.seed(4711)
            before = ambient.own(lib)
            for s in steps:
                i = s["i"]
                a = w.args(s)
                if a is None:
                    continue
                key = (s["op"], [world.structure(o) for o in a])
                for f in [*by.get(i, ()), None]:
                    pt = tr.resolve(f) if f else None
                    if f and pt is None:
                        continue
                    if f:
                        inj.arm(f["kind"], pt[0], pt[1])
                    else:
                        state.update(s=s, n=0, ref=ob.look() if looks.get(i) else None)
                    st = twin.run_step(w, s)
                    state["s"] = None
                    fired = inj.disarm()
                    if fired is not None:
                        stats.add("fault:" + f["kind"])
                    stats.add("steps")
                    how = f"interrupted by {type(fired).__name__} at {pt[2]}" if fired is not None else {"ok": "which completed", "exc": "which failed"}.get(st, st)
                    now = ambient.own(lib)
                    d = ambient.diff(before, now, ("global random state",) if s["op"] == "gsample" else ())
                    if d:
                        raise Mismatch("ambient", f"{w.describe(s)}, {how}, changed {d}", i)
                    if state["bad"]:
                        raise Mismatch("observed", f"{w.describe(state['bad'][0])} at {state['bad'][1]}: another thread sees {state['bad'][2]}", i)
                    before = now
                    stats.add("evaluations")
                    stats.see("distinct", key, st, f["kind"] if fired is not None else "")
                    if f:
                        w.o.pop(i, None)
    finally:
        ob.close()
