"""C06: samples are an exact linear image of fresh noise with the right covariance."""
import arrays
import boot
import faults
import gen
import known
import numpy as np
import rand
import supported
import threads
import twin
import world
from world import Mismatch, absval

QUICK = 3200
THOROUGH = 100000
RULE = ("one evaluation is one sampling call whose complete linear map from draws to samples was measured, by delivering every "
        "unit vector of draws, and compared with the covariance the dense model says; distinct = (structure, batch shape, number of samples, "
        "cache state before the call, what had happened before); non-trivial = the covariance is not zero")
ASSUMPTIONS = ["NumPy backend for the linear map (C07 covers JAX)", "the array layer's randn passes on what the random state delivers",
               "covariances of up to about 12 rows and 6 batch elements"]
LISTS = ["faults", "plan", "steps"]
STUBS = "the random state: a stand-in that delivers the draws the simulator chooses and can fail; the thread scheduler"
MAXDRAWS = 150


def generate(r, idx, thorough=False):
    g = gen.G(r, off=["gc", "sample", "gsample"], keep=("chol",),
              boost={"chol": 2, "dense": 1.5, "bto": 2, "bbto": 2, "mul": 1.5, "add": 1.5, "kron": 2, "submatrix": 1.5})
    for _ in range(r.choice([1, 1, 2])):
        g.matrix(r.choice(["pd", "pd", "pd", "psd", None]))
    for _ in range(r.choice([0, 1, 2, 4, 6] if not thorough else [2, 4, 8])):
        g.step()
    n = 0
    for _ in range(r.choice([1, 2, 3])):
        a = g.pick("pd") if r.random() < 0.7 else g.pick("psd", pred=lambda s: s.nt in ("Constant", "LowRank", "Zero", "Kronecker"))
        if a is None:
            a = g.matrix(r.choice(["pd", "pd", "psd"]))
        if a is None:
            continue
        num = r.choice([1, 1, 2, 2, 3, 4, 5, 6])
        while num > 1 and 2 * a.mv.size // a.mv.shape[-1] * num > MAXDRAWS:
            num -= 1
        s = g.emit("sample", [a.i], {"seed": r.randrange(1 << 30), "n": num})
        if s is None:
            continue
        n += 1
        for _ in range(r.choice([0, 1, 2])):
            g.step()
    steps = g.steps
    smp = [s for s in steps if s["op"] == "sample"]
    fs = []
    if smp and r.random() < 0.4:
        for f in faults.random_faults(r, smp, n=r.choice([1, 2])):
            if r.random() < 0.3:
                f["kind"] = "RS"
            fs.append(f)
    plan = []
    if r.random() < 0.25:
        plan = [[r.randrange(12), max(1, int(r.expovariate(1 / r.choice([3, 10, 40]))))] for _ in range(r.choice([2, 5, 12]))]
    return {"steps": steps, "faults": fs, "plan": plan, "nth": r.choice([2, 2, 3])}


def cov_of(w, s):
    """The covariance, by the dense model if it is known and else by documented attributes."""
    j = s["a"][0]
    mv = w.m.mv.get(j)
    return np.asarray(mv if mv is not None and j not in w.taint else absval(w.o[j]), dtype=np.float64)


def sample(w, s, o, state):
    before = np.random.get_state(legacy=True)
    st, res = w.x.B.sample(state, o, num=s["p"]["n"])
    after = np.random.get_state(legacy=True)
    if before[1].tobytes() != after[1].tobytes() or before[2:] != after[2:]:
        raise Mismatch("other-source", f"{w.describe(s)} draws from the global random state although one was passed", s["i"])
    if not isinstance(st, rand.Stub):
        raise Mismatch("state", f"{w.describe(s)} does not return the random state", s["i"])
    return np.asarray(absval(res))


def measure(w, s, stats):
    """Measure the whole map of sampling step `s` and check it. Returns it, or `None`."""
    o = w.o[s["a"][0]]
    d, i = w.describe(s), s["i"]
    num = s["p"]["n"]
    cov = cov_of(w, s)
    n = cov.shape[-1]
    batch = cov.shape[:-2]
    want = batch + (n, num)
    r = arrays.rng("draws", s["p"]["seed"])
    z = np.array([r.choice([-2.0, -1.0, -0.5, 0.5, 1.0, 3.0]) for _ in range(4 * MAXDRAWS)])
    st = rand.Stub(z)
    first = sample(w, s, o, st)
    stats.add("sampling calls")
    if first.shape != want:
        raise Mismatch("shape", f"{d}: sample of shape {first.shape}, not {want}", i)
    N, blocks = st.n, st.blocks
    if N > 2 * MAXDRAWS:
        stats.add("too large to measure")
        return None
    A = np.zeros((N,) + want)
    for k in range(N + 1):
        v = np.zeros(N)
        if k < N:
            v[k] = 1.0
        st = rand.Stub(v)
        y = sample(w, s, o, st)
        stats.add("sampling calls")
        if st.blocks != blocks:
            raise Mismatch("draws", f"{d}: draws {st.blocks}, but {blocks} before", i)
        if y.shape != want:
            raise Mismatch("shape", f"{d}: sample of shape {y.shape}, not {want}", i)
        if k < N:
            A[k] = y
        elif np.abs(y).max(initial=0) > 1e-12:
            raise Mismatch("offset", f"{d}: draws that are all zero give {y.ravel()[:6]}", i)
    tol = w.m.tol.get(s["a"][0], 1e-6)
    sc = max(1.0, float(np.abs(cov).max(initial=0)))
    lin = np.tensordot(z[:N], A, 1) if N else np.zeros(want)
    if first.size and np.abs(first - lin).max() > 50 * tol * np.sqrt(sc):
        raise Mismatch("linear", f"{d}: not a linear function of the draws, or not the same one as before: {first.ravel()[:6]}, but {lin.ravel()[:6]}", i)
    nb = int(np.prod(batch, dtype=int))
    F = A.reshape(N, nb, n, num).transpose(1, 3, 2, 0).reshape(nb * num, n, N)  # (element and sample), row, draw
    small = 1e-9 * np.sqrt(sc)
    uses = (np.abs(F) > small).any(1)
    for k in np.nonzero(uses.sum(0) > 1)[0]:
        who = np.nonzero(uses[:, k])[0][:2]
        p, q = [(np.unravel_index(x // num, batch) if batch else (), x % num) for x in who]
        what = "samples of one call" if p[0] == q[0] else "batch elements"
        raise Mismatch("shared-draw", f"{d}: draw {k} enters two {what}: {tuple(map(int, p[0]))}/{p[1]} and {tuple(map(int, q[0]))}/{q[1]}", i)
    got = np.matmul(F, F.transpose(0, 2, 1))
    ref = np.repeat(cov.reshape(nb, n, n), num, axis=0)
    e = world.close(got, ref, max(tol, 1e-6), sc)
    if e:
        raise Mismatch("covariance", f"{d}: covariance of the samples: {e}", i)
    return A


def execute(prog, stats):
    lib = boot.load()
    steps = prog["steps"]
    w0 = world.World(lib, steps)
    tr = faults.Trace()
    with faults.active(tr):
        if not twin.baseline(w0, steps, tr):
            stats.add("baseline already wrong")
            return
    w = world.World(lib, steps, models=w0.m)
    w.taint = set(w0.taint)
    by = {}
    for f in prog["faults"]:
        by.setdefault(f["s"], []).append(f)
    inj = faults.Injector()
    hist = []
    for s in steps:
        a = w.args(s)
        if a is None:
            continue
        if s["op"] != "sample":
            twin.run_step(w, s)
            hist.append(s["op"])
            continue
        i = s["i"]
        o = a[0]
        try:
            with np.errstate(all="ignore"):
                dom = world.guard("sample", a, s["p"]) and not known.risky(w, s)
        except np.linalg.LinAlgError:
            dom = False
        if not dom:
            stats.add("outside the domain")
            continue
        if w0.exc.get(i) is not None:
            if supported.has("sample", s["p"], a):
                raise Mismatch("unsupported", f"{w.describe(s)} raises {twin.ename(w0.exc[i])}: {str(w0.exc[i])[:300]}", i)
            stats.add("not supported")
            continue
        key = (world.structure(o), np.shape(absval(o)), s["p"]["n"], cache(o), len(by.get(i, ())) > 0)
        stats.see("caches", world.kindof(o), cache(o))
        if prog["plan"]:
            c = world.clone(o, w.x.M)
            outs = concurrent(w, s, c, prog, stats)
        for f in by.get(i, ()):
            pt = ("R", 0, "random source") if f["kind"] == "RS" else tr.resolve(f)
            if pt is None:
                continue
            st = rand.Stub(np.ones(4 * MAXDRAWS), fail_at=int(f["u"] * 2) if f["kind"] == "RS" else None)
            fired = None
            with faults.active(inj):
                if f["kind"] != "RS":
                    inj.arm(f["kind"], pt[0], pt[1])
                try:
                    sample(w, s, o, st)
                    if f["kind"] == "RS" and st.fail_at is None:
                        raise Mismatch("swallowed", f"{w.describe(s)} completes although the random source failed", i)
                except Mismatch:
                    raise
                except (Exception, KeyboardInterrupt) as e:
                    fired = inj.disarm()
                    if f["kind"] != "RS" and not (fired and faults.caused_by(e, fired)) or f["kind"] == "RS" and not isinstance(e, rand.SourceError):
                        raise Mismatch("other-exception", f"{w.describe(s)} raises {type(e).__name__}: {str(e)[:200]} when interrupted at {pt[2]}", i)
                    stats.add("fault:" + f["kind"])
                inj.disarm()
        try:
            A = measure(w, s, stats)
        except Mismatch:
            raise
        except Exception as e:
            raise Mismatch("exception", f"{w.describe(s)} raises {type(e).__name__}: {str(e)[:300]} after {hist}, but not in a run without faults", i)
        if A is None:
            continue
        stats.add("evaluations")
        stats.add("steps", A.shape[0] + 2)
        if np.abs(A).max(initial=0) > 0:
            stats.see("distinct", key, tuple(sorted(set(hist))))
        if prog["plan"]:
            # What the concurrent calls returned is the same map of their own draws.
            for z, y in outs:
                lin = np.tensordot(z[:A.shape[0]], A, 1)
                tol = w.m.tol.get(s["a"][0], 1e-6)
                if y.shape != lin.shape or y.size and np.abs(y - lin).max() > 50 * tol * max(1.0, float(np.abs(lin).max())):
                    raise Mismatch("concurrent", f"{w.describe(s)} called from concurrent threads: {y.ravel()[:6]}, but its draws give {lin.ravel()[:6]}", i)
                stats.add("evaluations")
        hist.append("sample")


def cache(o):
    return tuple(getattr(o, k, None) is not None for k in ("cholesky", "dense", "schur"))


def concurrent(w, s, o, prog, stats):
    outs = [None] * prog["nth"]
    zs = []
    for k in range(prog["nth"]):
        r = arrays.rng("draws", s["p"]["seed"], k)
        zs.append(np.array([r.choice([-1.0, -0.5, 0.5, 2.0]) for _ in range(4 * MAXDRAWS)]))

    def body(k):
        def f(t):
            try:
                res = w.x.B.sample(rand.Stub(zs[k]), o, num=s["p"]["n"])[1]
            except Mismatch:
                raise
            except Exception as e:
                raise Mismatch("concurrent-exception", f"{w.describe(s)} raises {type(e).__name__}: {str(e)[:200]} when called from concurrent threads", s["i"])
            outs[k] = np.asarray(absval(res))
        return f

    sch = threads.Sched([body(k) for k in range(prog["nth"])], [list(p) for p in prog["plan"]], 30000)
    sch.go()
    stats.add("preemptions", sch.switches)
    stats.see("interleavings", sch.trail)
    return list(zip(zs, outs))
