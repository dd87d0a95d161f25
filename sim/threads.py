"""Simulated threads: real threads of which exactly one runs at a time.

The running thread is preempted only at events of the library's code, at the points the
plan says; the plan is a list of [pick, quantum]: run thread `pick` (modulo the runnable
ones) for `quantum` events. When the plan is used up, threads run to completion in turn.
Locks made by the library are simulated (simlock), so blocking is visible as such, and
deadlocks are found rather than met.
"""
import threading

import boot
import monitor
import simlock
from world import Mismatch

EV = monitor.MON.events


class Abort(BaseException):
    """Ends a simulated thread because the run is over."""


class Sim:
    def __init__(self, idx, body):
        self.idx, self.body = idx, body
        self.sem = threading.Semaphore(0)
        self.state = "ready"  # ready, waiting, parked, done
        self.events = 0
        self.since = 0
        self.error = None
        self.sched = None
        self.park_at = None
        self.fault_at = None
        self.fault = None
        self.fired = None
        self.where = None

    def blocked(self):
        self.sched.block(self)


class Sched:
    def __init__(self, bodies, plan, budget, instr=False, on_event=None):
        self.t = [Sim(k, b) for k, b in enumerate(bodies)]
        for t in self.t:
            t.sched = self
        self.plan, self.pos = plan, 0
        self.left = None
        self.budget = budget
        self.instr = instr
        self.by_ident = {}
        self.main = threading.Semaphore(0)
        self.events = 0
        self.switches = 0
        self.trail = []
        self.stop = None  # Why the run ended early.
        self.on_event = on_event
        self.cur = None

    # In simulated threads

    def event(self, code, pos):
        t = self.by_ident.get(threading.get_ident())
        if t is None or t is not self.cur:
            return
        if self.stop is not None:
            raise Abort()
        self.events += 1
        t.events += 1
        t.where = (code, pos)
        if self.on_event is not None:
            self.on_event()
        if self.events > self.budget:
            self.finish("no-progress", f"no end after {self.events} events")
            raise Abort()
        if t.events == t.park_at:
            t.state = "parked"
            self.yield_to_next(t)
        if t.events == t.fault_at:
            t.fired = t.fault(f"injected at {monitor.site(code)}:{pos}")
            raise t.fired
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                self.yield_to_next(t)

    def runnable(self):
        r = [t for t in self.t if t.state == "ready"]
        if not r:
            # Waiting threads may try again if anything happened since they last did.
            r = [t for t in self.t if t.state == "waiting" and t.since < self.events]
        return r

    def choose(self, exclude=None):
        r = self.runnable()
        if exclude is not None and len(r) > 1:
            r = [t for t in r if t is not exclude]
        if not r:
            return None
        if self.pos < len(self.plan):
            pick, quantum = self.plan[self.pos]
            self.pos += 1
            self.left = quantum
            return r[pick % len(r)]
        self.left = None
        return r[0]

    def yield_to_next(self, t):
        n = self.choose()
        if n is None:
            # Everything else is finished or stuck.
            alive = [x for x in self.t if x.state == "waiting"]
            if alive:
                self.deadlock(alive)
            self.main.release()
        elif n is t:
            return
        else:
            self.run(n, t)
        if t.state != "done":
            t.sem.acquire()
            if self.stop is not None:
                raise Abort()

    def run(self, n, prev):
        self.switches += 1
        code, pos = prev.where if prev is not None and prev.where else (None, 0)
        self.trail.append((prev.idx if prev else -1, monitor.site(code) if code else "", pos, n.idx))
        if n.state == "waiting":
            n.state = "ready"
        self.cur = n
        n.sem.release()

    def block(self, t):
        """`t` waits for a lock."""
        if self.stop is not None:
            raise Abort()
        t.state, t.since = "waiting", self.events
        for x in self.t:
            if x is not t and x.state == "waiting" and x.since < self.events:
                x.state = "ready"
        self.yield_to_next_blocked(t)

    def yield_to_next_blocked(self, t):
        r = [x for x in self.t if x.state == "ready" and x is not t]
        if not r:
            alive = [x for x in self.t if x.state == "waiting"]
            self.deadlock(alive)
            self.main.release()
            t.sem.acquire()
            raise Abort()
        n = r[0]
        if self.pos < len(self.plan):
            pick, self.left = self.plan[self.pos]
            self.pos += 1
            n = r[pick % len(r)]
        self.run(n, t)
        t.sem.acquire()
        if self.stop is not None:
            raise Abort()
        t.state = "ready"

    def deadlock(self, alive):
        parked = [x for x in self.t if x.state == "parked"]
        where = "; ".join(f"thread {x.idx} at {monitor.site(x.where[0])}:{x.where[1]}" if x.where else f"thread {x.idx}" for x in alive)
        if parked:
            self.finish("waits-for-stopped", f"waiting for a thread that has stopped: {where}", wake=False)
        else:
            self.finish("deadlock", where, wake=False)

    def finish(self, sig, msg, wake=True):
        if self.stop is None:
            self.stop = (sig, msg)
        if wake:
            self.main.release()

    def _main(self, t):
        t.sem.acquire()
        try:
            if self.stop is None:
                t.body(t)
        except Abort:
            pass
        except BaseException as e:
            t.error = e
        t.state = "done"
        if self.stop is not None:
            return
        for x in self.t:
            if x.state == "waiting" and x.since < self.events:
                x.state = "ready"
        n = self.choose()
        if n is None:
            alive = [x for x in self.t if x.state == "waiting"]
            if alive:
                self.deadlock(alive)
            self.main.release()
        else:
            self.run(n, t)

    # In the main thread

    def go(self):
        ths = []
        ready = threading.Semaphore(0)
        for t in self.t:
            def main(t=t):
                self.by_ident[threading.get_ident()] = t
                ready.release()
                self._main(t)

            th = threading.Thread(target=main, daemon=True)
            th.start()
            ready.acquire()
            ths.append(th)
        simlock.current = lambda: self.by_ident.get(threading.get_ident())
        ev = EV.INSTRUCTION if self.instr else EV.LINE
        try:
            with monitor.events([("matrix", ev, self.event)]):
                self.resume()
                # Threads that were stopped for good run on once everybody else is done.
                if self.stop is None:
                    for t in self.t:
                        if t.state == "parked":
                            t.state, t.park_at = "ready", None
                    if any(t.state == "ready" for t in self.t):
                        self.resume()
        finally:
            simlock.current = None
            if self.stop is None and any(t.state != "done" for t in self.t):
                self.stop = ("stuck", "the run ended early")
            if self.stop is not None:
                for t in self.t:
                    t.sem.release()
        for th in ths:
            th.join(5)
        if self.stop is not None:
            raise Mismatch(*self.stop)
        for t in self.t:
            if t.error is not None:
                raise t.error

    def resume(self):
        n = self.choose()
        self.run(n, None)
        if not self.main.acquire(timeout=30):
            self.stop = ("no-progress", "a thread blocked outside the simulator")
