"""C10: warning policy and warning-sink failures never corrupt results."""
import contextlib
import warnings

import arrays
import boot
import faults
import gen
import twin
import world
from ops import OPS
from world import Mismatch, kindof

QUICK = 9000
THOROUGH = 300000
RULE = ("one evaluation is one call made under a warning policy and compared with the same call with warnings ignored, or one call on new operands whose warnings are compared with those it gave at first; "
        "distinct = (operation, operand structures, policy, outcome); non-trivial = the call warned")
ASSUMPTIONS = ["NumPy backend", "policies are Python's filters and display hooks; the library's own warning category is public", "runs whose execution with warnings ignored is already wrong are left to C01"]
LISTS = ["policies", "steps"]
STUBS = "the warning display hook: records, fails, changes the policy, or calls the library, as the schedule says"
ACTIONS = ["ignore", "always", "default", "once", "module", "error", "error", "category", "hook", "hook", "nth", "nth", "flip", "reenter", "reenter", "record", "memory", "interrupt"]
WARNING_OPS = {"chol": 2, "root": 2, "add": 1.5, "mul": 1.5, "mm": 1.5, "div": 2, "solve": 1.5, "pow": 2, "sqrt": 3, "abs": 2, "take": 2, "submatrix": 2, "tile": 2, "squeeze": 2, "bto": 3, "diag": 1.5,
               "reshape": 3, "isnan": 3, "sum": 1.5, "concat": 2, "block": 2.5, "bdiag": 2.5, "trisolve": 2, "dense": 1.5, "getitem": 2}


def generate(r, idx, thorough=False):
    g = gen.G(r, off=["gc", "bad"], boost=WARNING_OPS)
    g.program(r.choice([2, 3]), r.choice([3, 5, 7] if not thorough else [6, 9, 14]))
    pol = []
    cur = None
    for s in g.steps:
        if s["op"] in ("arr", "scal"):
            continue
        # The process keeps a policy for a while or changes it for every call.
        if cur is None or r.random() < 0.4:
            cur = r.choice(ACTIONS)
        p = {"s": s["i"], "act": cur, "k": r.choice([0, 0, 0, 1, 2]), "then": r.choice(["retry", "retry", "retry", "again", "leave"])}
        if cur == "reenter":
            p["ops"] = [r.choice(["dense", "chol", "schur", "str", "same", "diag", "inv"]) for _ in range(r.choice([1, 2]))]
        pol.append(p)
        if r.random() < 0.35:
            pol.append({"s": s["i"], "act": "look"})
    return {"steps": g.steps, "policies": pol, "probe": r.randrange(1 << 30)}


class Sink:
    """The simulated receiver of warnings, and the policy in force."""

    def __init__(self, act, k=0, on=None):
        self.act, self.k, self.on = act, k, on
        self.n = 0
        self.seen = []
        self.fired = None
        self.busy = False

    def hook(self, message, category, filename, lineno, file=None, line=None):
        if self.busy:
            return
        n = self.n
        self.n += 1
        self.seen.append((category.__name__, str(message)))
        if n < self.k:
            return
        act = self.act
        if act in ("hook", "memory", "interrupt", "nth"):
            if n == self.k:
                self.fired = {"hook": lambda: faults.HookError("the warning display hook failed"), "memory": lambda: faults.NoMemory("no memory to show the warning"),
                              "interrupt": lambda: faults.Interrupt("while showing the warning"), "nth": lambda: message if isinstance(message, Warning) else category(message)}[act]()
                raise self.fired
        elif act == "flip":
            warnings.simplefilter("error")
        elif act == "reenter" and n == self.k:
            self.busy = True
            try:
                self.on()
            finally:
                self.busy = False


@contextlib.contextmanager
def policy(lib, sink):
    old = warnings.showwarning, warnings.filters[:]
    act = sink.act
    try:
        warnings.resetwarnings()
        if act == "record":
            with warnings.catch_warnings(record=True) as got:
                warnings.simplefilter("always")
                yield sink
                sink.seen = [(m.category.__name__, str(m.message)) for m in got]
            return
        warnings.showwarning = sink.hook
        if act == "category":
            from matrix.util import ToDenseWarning

            warnings.simplefilter("ignore")
            warnings.filterwarnings("error", category=ToDenseWarning)
        else:
            warnings.simplefilter(act if act in ("ignore", "default", "once", "module", "error") else "always")
        yield sink
    finally:
        warnings.showwarning = old[0]
        warnings.resetwarnings()
        warnings.filters[:] = old[1]
        getattr(warnings, "_filters_mutated", lambda: None)()


def look(w, s, a):
    """What the call warns about on newly built operands, and how it ends."""
    memo = {}

    def c(o):
        if id(o) not in memo:
            memo[id(o)] = world.clone(o, w.x.M)
        return memo[id(o)]

    b = [c(o) for o in a]
    with policy(w.lib, Sink("always")) as sink:
        try:
            w.call(s, b)
            end = "completes"
        except Exception as e:
            end = type(e).__name__
    return sink.seen, end


def reentrant(w, s, a, ops):
    """What a display hook does that uses the matrices at hand."""

    def on():
        for name in ops:
            if name == "same":
                with contextlib.suppress(Exception):
                    w.call(s, a)
                continue
            for o in a:
                if kindof(o) not in world.MATRIX_TYPES or name == "schur" and kindof(o) != "Woodbury":
                    continue
                with contextlib.suppress(Exception):
                    if name == "str" or world.guard(name, [o], {}):
                        OPS[name].call(w.x, [o], {})

    return on


def execute(prog, stats):
    lib = boot.load()
    steps = prog["steps"]
    w0 = world.World(lib, steps)
    # The calls with warnings ignored, and what they warn about on new operands.
    first = {}
    looks = {p["s"] for p in prog["policies"] if p["act"] == "look"}
    for s in steps:
        a = w0.args(s)
        if a is None:
            continue
        if s["i"] in looks:
            first[s["i"]] = look(w0, s, a)
        if not twin.baseline(w0, [s]):
            stats.add("baseline already wrong")
            return
    by, pol = set(), {}
    for p in prog["policies"]:
        if p["act"] == "look":
            by.add(p["s"])
        else:
            pol[p["s"]] = p
    w = world.World(lib, steps, models=w0.m)

    def looking(s, a):
        i = s["i"]
        if i in by and i in first and [world.structure(o) for o in a] == [world.structure(w0.o[j]) for j in s["a"]]:
            seen, end = look(w, s, a)
            stats.add("evaluations")
            stats.add("looks at new operands")
            if seen != first[i][0]:
                raise Mismatch("warnings", f"{w.describe(s)} on new operands warns {short(seen)}, but warned {short(first[i][0])} at first", i)
            if end != first[i][1]:
                raise Mismatch("warnings", f"{w.describe(s)} on new operands {end}, but {first[i][1]} at first", i)

    for s in steps:
        i = s["i"]
        a = w.args(s)
        if a is None:
            continue
        p = pol.get(i)
        if p is None:
            twin.run_step(w, s)
            twin.compare(w, w0, s)
            continue
        for _ in range(2 if p["then"] == "again" else 1):
            act = p["act"]
            sink = Sink(act, p["k"], reentrant(w, s, a, p.get("ops", ())) if act == "reenter" else None)
            with policy(lib, sink):
                st = twin.run_step(w, s)
            stats.add("steps")
            stats.add("policy " + act)
            what = f" under the warning policy '{act}'"
            e = w.exc.get(i) if st == "exc" else None
            raised = e is not None and (e is sink.fired or act in ("error", "category", "flip") and isinstance(e, Warning))
            if raised:
                stats.add("fault:" + ("warning display hook fails" if act in ("hook", "memory", "interrupt") else "warning becomes an error"))
                stats.see("distinct", s["op"], [world.structure(o) for o in a], act, "raised")
                stats.add("evaluations")
                continue
            if e is not None and faults.caused_by(e, sink.fired) and type(e) is not type(w0.exc.get(i)):
                raise Mismatch("other-exception", f"{w0.describe(s)} raises {type(e).__name__}: {str(e)[:200]}{what}, not the {type(sink.fired).__name__} raised by the hook", i)
            if e is not None and act in ("error", "category", "flip", "nth") and type(e) is not type(w0.exc.get(i)):
                raise Mismatch("other-exception", f"{w0.describe(s)} raises {type(e).__name__}: {str(e)[:200]}{what}, which is not the warning", i)
            twin.compare(w, w0, s, what=what)
            stats.add("evaluations")
            if sink.seen or sink.fired is not None:
                stats.see("distinct", s["op"], [world.structure(o) for o in a], act, "returned")
                stats.add("calls that warned")
        if i in w.exc and i not in w0.exc or i not in w.o:
            looking(s, a)
            if p["then"] == "leave":
                w.exc.pop(i, None)
                w.o.pop(i, None)
                continue
            twin.run_step(w, s)
            twin.compare(w, w0, s, what=f" once warnings are ignored again, after the policy '{p['act']}'")
        else:
            looking(s, a)
    w.taint |= w0.taint
    try:
        w.audit()
    except Mismatch:
        try:
            w0.audit()
        except Mismatch:
            stats.add("baseline already wrong")
            return
        raise
    r = arrays.rng("probe", prog["probe"])
    mats = [i for i, o in w.o.items() if kindof(o) in world.MATRIX_TYPES]
    r.shuffle(mats)
    twin.probe(w, mats[:3], r, 2, stats, " after this history of warnings")


def short(x):
    return str([m[1] for m in x])[:200] if x else "about nothing"
