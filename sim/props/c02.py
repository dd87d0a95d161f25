"""C02: no call ever changes an operand, a caller's array or an earlier result."""
import copy

import numpy as np

import boot
import faults
import gen
import snap
import twin
import world
from world import Mismatch

QUICK = 9000
THOROUGH = 300000
RULE = ("one evaluation is one call (completed, failed or interrupted) after which every array the caller owns, with the "
        "memory around it, and every object returned before are compared byte by byte with their first snapshot; distinct "
        "= (operation, operand structures, memory layouts, kind of fault); non-trivial = at least one earlier object could have changed")
ASSUMPTIONS = ["NumPy backend", "structure and value are read from documented attributes; caches are not part of the snapshot"]
LISTS = ["faults", "steps"]


def generate(r, idx, thorough=False):
    g = gen.G(r, off=["gc"], alias=0.3, ro=r.random() < 0.2, bases=[(), (), (), (2,), (2, 3)])
    g.program(r.choice([2, 3]), r.choice([4, 6, 9] if not thorough else [6, 10, 14]))
    return {"steps": g.steps, "faults": faults.random_faults(r, g.steps) if r.random() < 0.6 else [], "ro": int(r.random() < 0.3)}


class Watch:
    """First snapshots of everything, compared again after every call."""

    def __init__(self, w):
        self.w = w
        self.first = {}
        self.held = []
        w.x.held = []

    def take(self, i):
        o = self.w.o.get(i)
        if i in self.first or o is None:
            return
        s = self.w.by[i]
        if isinstance(o, np.ndarray) and s["op"] in ("arr", "view"):
            self.first[i] = ("mem", o, snap.memory(o))
        else:
            self.first[i] = ("obj", o, snap.of(o))

    def hold(self):
        """Containers handed to the call that just ended; called right after it, so this
        compares with what the step's parameters say."""
        self.w.x.held = []

    def check(self, s, what):
        for i, (kind, o, first) in self.first.items():
            now = snap.memory(o) if kind == "mem" else snap.of(o)
            if now != first:
                t = "array" if kind == "mem" else world.kindof(o)
                raise Mismatch("changed", f"{self.w.describe(s)}{what} changed #{i} ({t}, from {self.w.by[i]['op']}): {snap.diff(first, now)}", s["i"])
        p = s.get("p") or {}
        for h in self.w.x.held:
            if s["op"] in ("take", "submatrix"):
                v = p["v"]
                if list(map(int, h)) != list(map(int, v)):
                    raise Mismatch("changed", f"{self.w.describe(s)}{what} changed the indices it was given: {h}", s["i"])
        if s["op"] == "block" and self.w.x.held:
            flat = [id(o) for row in self.w.x.held for o in row]
            want = [id(self.w.o[j]) for j in s["a"]]
            if flat[:len(want)] != want:
                raise Mismatch("changed", f"{self.w.describe(s)}{what} changed the lists it was given", s["i"])
        self.w.x.held = []


def lay(w, a):
    o = a
    while True:
        ps = world.parts(o) if world.kindof(o) in world.MATRIX_TYPES else []
        if not ps:
            break
        o = ps[0]
    if isinstance(o, np.ndarray):
        return (o.flags.c_contiguous, o.flags.writeable, o.base is not None)
    return ()


def execute(prog, stats):
    lib = boot.load()
    steps = prog["steps"]
    w0 = world.World(lib, steps)
    tr = faults.Trace()
    with faults.active(tr):
        if not twin.baseline(w0, steps, tr):
            stats.add("baseline already wrong")
            return
    by = {}
    for f in prog["faults"]:
        by.setdefault(f["s"], []).append(f)
    w = world.World(lib, steps, models=w0.m)
    wt = Watch(w)
    inj = faults.Injector()
    with faults.active(inj):
        for s in steps:
            i = s["i"]
            a = w.args(s)
            if a is None:
                continue
            key = (s["op"], [(world.structure(o), lay(w, o)) for o in a])
            for f in by.get(i, ()):
                pt = tr.resolve(f)
                if pt is None:
                    continue
                inj.arm(f["kind"], pt[0], pt[1])
                twin.run_step(w, s)
                fired = inj.disarm()
                if fired is not None:
                    stats.add("fault:" + f["kind"])
                    stats.add("evaluations")
                    stats.see("distinct", key, f["kind"])
                wt.check(s, f" interrupted at {pt[2]}")
                w.o.pop(i, None)
            st = twin.run_step(w, s)
            stats.add("steps")
            wt.check(s, "" if st == "ok" else " (which failed)")
            if s["op"] not in ("arr", "scal", "view"):
                stats.add("evaluations")
                if len(wt.first) > 1:
                    stats.see("distinct", key, st)
            stats.add("snapshots compared", len(wt.first))
            wt.take(i)
    if prog["ro"]:
        wr = world.World(lib, steps, models=w0.m)
        wr.x.force_ro = True
        for s in steps:
            a = wr.args(s)
            if a is None:
                continue
            twin.run_step(wr, s)
            twin.compare(wr, w0, s, what=" on read-only arrays")
        stats.add("runs on read-only arrays")
