"""C01: any history of operations refines the dense computation."""
import warnings

import numpy as np

import arrays
import boot
import engine
import gen
import known
import ops
import supported
import world
from ops import OPS
from world import Mismatch

QUICK = 20000
THOROUGH = 600000
RULE = ("one evaluation is one call made on shared matrices inside a seeded history and compared with the dense "
        "model; distinct = operation with structures, shapes and cache states of all operands, counted once; "
        "non-trivial = at least one operand is a matrix that an earlier call already used or returned")
ASSUMPTIONS = ["NumPy backend, real data types", "sizes up to about 12, up to three batch dimensions",
               "NumPy and LAB's numeric kernels are trusted", "known findings KF1-KF4 are not reported again"]
LISTS = ["steps"]


def generate(r, idx, thorough=False):
    g = gen.G(r, dups=0.1)
    nmat = r.choice([2, 2, 3, 4])
    nops = r.choice([4, 6, 8, 10, 14] if not thorough else [6, 10, 16, 24])
    g.program(nmat, nops)
    steps = g.steps
    for s in steps:
        s["h"] = r.choice([0, 0, 1, 1, 2])
        if r.random() < 0.08:
            s["tw"] = 1
    return {"steps": steps}


def cachestate(o):
    t = type(o).__name__
    if t not in world.MATRIX_TYPES:
        return "-"
    d = getattr(o, "__dict__", {})
    return t[:4] + "".join("1" if d.get(k) is not None else "0" for k in ("cholesky", "dense", "schur") if k in d)


def execute(prog, stats):
    lib = boot.load()
    steps = prog["steps"]
    w = world.World(lib, steps)
    used = set()
    for s in steps:
        a = w.args(s)
        if a is None:
            continue
        i = s["i"]
        key = None
        if s["op"] not in ("arr", "scal"):
            states = [cachestate(o) for o in a]
            if any(j in used for j in s["a"]):
                key = (s["op"], [world.kindof(o) for o in a], [w.m.mv[j].shape if isinstance(w.m.mv.get(j), np.ndarray) else None for j in s["a"]], states,
                       sorted((s.get("p") or {}).items(), key=str) if s["op"] in ("mm", "mmd", "sum", "take") else None)
        dom = w.in_domain(s, a)
        st = w.do(s)
        stats.add("steps")
        try:
            if st == "exc":
                stats.add("op:" + s["op"] + "!")
                check_exception(w, s, a, dom, stats)
                continue
            stats.add("op:" + s["op"])
            kf = known.risky(w, s)
            how = s.get("h", 1)
            v = w.verify(s, a, how or 1 if kf else how)
            if s.get("tw") and dom:
                check_completed(w, s, a)
            if kf:
                w.taint.add(i)
            if v == "unknown":
                stats.add("unverified")
            else:
                stats.add("evaluations")
                if key:
                    stats.see("distinct", key)
        except Mismatch as e:
            kid = known.match("C01", w, s, e)
            if kid is None:
                raise
            stats.known_hit(kid, e.msg[:300])
            w.taint.add(i)
        used.update(s["a"])
        for j in s["a"]:
            stats.mark("cache_states", cachestate(w.o[j]))
    try:
        w.audit()
    except Mismatch as e:
        raise
    stats.add("audits")


def cold(w, s, a):
    """The same call on newly built operands of the same structure."""
    memo = {}

    def c(o):
        if id(o) not in memo:
            memo[id(o)] = world.clone(o, w.x.M)
        return memo[id(o)]

    b = [c(o) for o in a]
    try:
        return w.call(s, b), None
    except Exception as e:
        return None, e


def check_exception(w, s, a, dom, stats):
    e = w.exc[s["i"]]
    if s["op"] == "bad":
        return
    kinds = "/".join(world.kindof(o) for o in a)
    r, e2 = cold(w, s, a)
    numeric = isinstance(e, (np.linalg.LinAlgError, FloatingPointError, ZeroDivisionError))
    if e2 is None:
        if dom or not numeric:
            raise Mismatch("history-exception", f"{w.describe(s)} raises {type(e).__name__}: {str(e)[:300]}; the same call on newly built operands completes", s["i"])
    elif type(e2) is not type(e) and (dom or not numeric):
        raise Mismatch("history-exception", f"{w.describe(s)} raises {type(e).__name__}: {str(e)[:200]}; on newly built operands it raises {type(e2).__name__}: {str(e2)[:200]}", s["i"])
    if dom and not known.risky(w, s) and supported.has(s["op"], s.get("p"), a):
        raise Mismatch("unsupported", f"{w.describe(s)} raises {type(e).__name__}: {str(e)[:300]}", s["i"])
    stats.add("calls that raised, as on new operands")


def check_completed(w, s, a):
    if s["op"] in ("bad", "sample", "gc", "root"):
        return
    r, e2 = cold(w, s, a)
    if e2 is not None:
        raise Mismatch("history-completes", f"{w.describe(s)} completes, but raises {type(e2).__name__}: {str(e2)[:200]} on newly built operands", s["i"])
    if s["op"] in ("repr", "str"):
        return
    if world.structure(r) != world.structure(w.o[s["i"]]):
        raise Mismatch("history-structure", f"{w.describe(s)} gives {world.structure(w.o[s['i']])}, but {world.structure(r)} on newly built operands", s["i"])
    o = w.o[s["i"]]
    if OPS[s["op"]].cmp in ("twin", "val", "chol"):
        x, y = world.absval(r), world.absval(o)
        e = world.close(y, np.asarray(x), w.m.tol[s["i"]], max(w.m.scale[s["i"]], float(np.abs(x).max(initial=0)) if x.dtype.kind in "fiu" else 1))
        if e:
            raise Mismatch("history-value", f"{w.describe(s)} differs from the same call on newly built operands: {e}", s["i"])


def call(what, n="20000", out=None):
    """`check call C01 learn`: learn the table of supported calls on the pinned tree."""
    import json
    from collections import Counter

    lib = boot.load()
    yes, no = Counter(), Counter()
    supported._t = set()
    for idx in range(int(n)):
        prog = generate(arrays.rng("learn", idx, out), idx)
        engine.reset_process()
        w = world.World(lib, prog["steps"])
        for s in prog["steps"]:
            a = w.args(s)
            if a is None or s["op"] in ("arr", "scal", "bad", "gc"):
                if a is not None:
                    w.do(s)
                continue
            dom = w.in_domain(s, a)
            st = w.do(s)
            if st == "ok":
                w.verify(s, a, 0) if OPS[s["op"]].cmp != "shape" else None
                if known.risky(w, s):
                    w.taint.add(s["i"])
            if dom and supported.applies(s["op"], s.get("p"), a):
                (yes if st == "ok" else no)[supported.key(s["op"], s.get("p"), a)] += 1
    d = {"yes": yes, "no": no}
    with open(out or "/tmp/learn.json", "w") as f:
        json.dump(d, f)
    print(len(yes), len(no), sum(yes.values()))
