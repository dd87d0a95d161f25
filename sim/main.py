"""Entry point of the checks: check, worker, minimise, replay."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

import boot  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))


def spawn(args, hashseed="0", **kw):
    return subprocess.Popen([boot.PY, "-B", os.path.join(HERE, "main.py"), *map(str, args)],
                            env=boot.child_env(hashseed), cwd=boot.VERIF, **kw)


def check(pid, seed, tier, runs=None, workers=None, wall=None):
    import engine

    t0 = time.monotonic()
    mod = engine.prop_module(pid)
    thorough = tier == "thorough"
    runs = runs or (mod.THOROUGH if thorough else mod.QUICK)
    workers = workers or min(8, os.cpu_count() or 1)
    wall = wall or (6 * 3600 if thorough else 780)
    os.environ["VSIM_DEADLINE"] = str(t0 + wall - 180)
    print(f"{pid}: VERIF_SEED={seed} tier={tier} runs={runs} workers={workers} repo={boot.REPO}", flush=True)
    tmp = tempfile.mkdtemp(prefix="vsim.")
    if getattr(mod, "JAX", False):
        os.environ["VSIM_JAXCACHE"] = os.path.join(tmp, "jax")
    try:
        if hasattr(mod, "main"):
            stats, viols, done = mod.main(tmp, seed, thorough, runs, workers, t0 + wall)
        else:
            stats, viols, done = run_workers(tmp, pid, seed, thorough, runs, workers, t0 + wall)
        code = report(tmp, mod, pid, seed, tier, stats, viols, done, runs, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return code


def run_workers(tmp, pid, seed, thorough, runs, workers, deadline):
    import engine

    procs = []
    # Batches, so that a worker's memory and the damage of a bad run stay bounded.
    stride = workers
    for k in range(workers):
        n = len(range(k, runs, stride))
        out = os.path.join(tmp, f"w{k}.json")
        err = open(os.path.join(tmp, f"w{k}.err"), "w")
        procs.append((k, out, err, spawn(["worker", pid, seed, k, stride, n, out, int(thorough)], stdout=err, stderr=err)))
    stats, viols, done = engine.Stats(), [], 0
    bad = []
    for k, out, err, p in procs:
        try:
            p.wait(max(1, deadline - time.monotonic()))
        except subprocess.TimeoutExpired:
            bad.append(f"worker {k}: out of time")
            for q in procs:
                q[3].kill()
            break
        err.close()
        if p.returncode != 0 or not os.path.exists(out):
            tail = open(os.path.join(tmp, f"w{k}.err")).read()[-3000:]
            bad.append(f"worker {k}: exit {p.returncode}\n{tail}")
            continue
        d = json.load(open(out))
        stats.merge(d["stats"])
        viols.extend(d["viols"])
        done += d["done"]
    if bad and not viols:
        raise boot.HarnessError("\n".join(bad))
    viols.sort(key=lambda v: v["idx"])
    return stats, viols, done


def report(tmp, mod, pid, seed, tier, stats, viols, done, runs, t0):
    import known

    code = 0
    replay_path = None
    if viols:
        code = 1
        replay_path = reproduce(tmp, mod, pid, seed, tier, viols[0])
    wall = time.monotonic() - t0
    c = stats.c
    cov = {
        "evaluations": int(c.get("evaluations", done)),
        "distinct_nontrivial": len(stats.sets.get("distinct", ())),
        "rule": mod.RULE,
        "samples": stats.samples[:3],
        "simulated_runs": done,
        "runs_per_hour": int(done / max(wall, 1e-9) * 3600),
        "simulated_time": "none: the code under test has no clocks or timers; simulated steps are counted instead",
        "simulated_steps": int(c.get("steps", 0)),
        "counters": {k: int(v) for k, v in sorted(c.items()) if not k.startswith(("op:", "fault:", "probe:"))},
        "operations": {k[3:]: int(v) for k, v in sorted(c.items()) if k.startswith("op:")},
        "faults_injected": {k[6:]: int(v) for k, v in sorted(c.items()) if k.startswith("fault:")},
        "probes": {k[6:]: int(v) for k, v in sorted(c.items()) if k.startswith("probe:")},
        "distinct": {k: len(v) for k, v in sorted(stats.sets.items())},
        "real_components": getattr(mod, "REAL", "all of /repo/matrix, LAB, plum, NumPy"),
        "stubs": getattr(mod, "STUBS", "none"),
        "known_findings_hit": {k: v[0] for k, v in sorted(stats.known.items())},
    }
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(seed),
        "level": "exploration", "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=False)
    kf = known.findings()
    for kid, (n, text) in sorted(stats.known.items()):
        print(f"KNOWN-FINDING: property={pid} {kid} ({n} times) {kf[kid]['what']}")
    print(f"{pid}: {done} of {runs} runs, {cov['evaluations']} evaluations, "
          f"{cov['distinct_nontrivial']} distinct non-trivial, {int(c.get('steps', 0))} steps, {wall:.1f} s")
    if code:
        v = viols[0]
        print(f"run {v['idx']}: [{v['sig']}] {v['msg']}")
        print(f"VIOLATION property={pid} replay={replay_path}", flush=True)
    elif done != runs:
        if not done:
            raise boot.HarnessError("no run was made")
        print(f"{pid}: out of time after {done} of {runs} runs")
    return code


def reproduce(tmp, mod, pid, seed, tier, v):
    """Write the replay file: minimised if possible, and checked in a fresh process."""
    d = os.path.join(boot.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{seed}-{v['idx']}.json")
    base = {"property": pid, "seed": int(seed), "run": v["idx"], "sig": v["sig"], "message": v["msg"],
            "thorough": tier == "thorough"}
    src = os.path.join(tmp, "in.json")
    cands = []
    with open(src, "w") as f:
        json.dump({**base, "kind": "program", "program": v["prog"]}, f)
    out = os.path.join(tmp, "min.json")
    p = spawn(["minimise", src, out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        p.wait(90)
    except subprocess.TimeoutExpired:
        p.kill()
    if p.returncode == 0 and os.path.exists(out):
        cands.append(json.load(open(out)))
    cands.append({**base, "kind": "program", "program": v["prog"]})
    if v.get("batch"):
        cands.append({**base, "kind": "batch", "batch": v["batch"]})
    for cand in cands:
        cand["reproduced"] = True
        with open(path, "w") as f:
            json.dump(cand, f, indent=1)
        q = spawn(["replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        try:
            txt = q.communicate(timeout=120)[0]
        except subprocess.TimeoutExpired:
            q.kill()
            continue
        if q.returncode == 1 and f"[{v['sig']}]" in txt:
            return path
    cand = cands[0]
    cand["reproduced"] = False
    with open(path, "w") as f:
        json.dump(cand, f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    a = sub.add_parser("check")
    a.add_argument("prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    a.add_argument("--runs", type=int)
    a.add_argument("--workers", type=int)
    sub.add_parser("setup")
    a = sub.add_parser("worker")
    for n in ("prop", "seed", "start", "stride", "count", "out", "thorough"):
        a.add_argument(n)
    a.add_argument("--maxviol", type=int, default=1)
    a = sub.add_parser("minimise")
    a.add_argument("src")
    a.add_argument("out")
    a = sub.add_parser("replay")
    a.add_argument("file")
    a = sub.add_parser("call")
    a.add_argument("prop")
    a.add_argument("args", nargs="*")
    o = ap.parse_args()
    if o.cmd == "setup":
        # Nothing to build: check that the library imports and runs from the repository.
        lib = boot.load(jax=True)
        assert lib.np.allclose(lib.B.dense(lib.M.Diagonal(lib.np.ones(2))), lib.np.eye(2))
        print("library:", os.path.dirname(lib.M.__file__))
        return
    import engine

    if o.cmd == "check":
        try:
            code = check(o.prop, o.seed, o.tier, o.runs, o.workers)
        except boot.HarnessError as e:
            print(f"HARNESS ERROR: {e}", file=sys.stderr)
            code = 3
        sys.exit(code)
    if o.cmd == "worker":
        engine.worker(o.prop, int(o.seed), int(o.start), int(o.stride), int(o.count), o.out, o.thorough == "1", o.maxviol)
    elif o.cmd == "minimise":
        d = json.load(open(o.src))
        mod = engine.prop_module(d["property"])
        if hasattr(mod, "prepare"):
            mod.prepare()
        boot.load(jax=getattr(mod, "JAX", False))
        best, tries = engine.minimise(mod, d["program"], d["sig"])
        if best is None:
            sys.exit(4)
        d["program"] = best
        d["minimised_with_executions"] = tries
        d["readable"] = engine.brief(best)
        with open(o.out, "w") as f:
            json.dump(d, f)
    elif o.cmd == "replay":
        e = engine.execute_file(o.file)
        if e is None:
            print("no violation")
            sys.exit(0)
        pid = json.load(open(o.file))["property"]
        print(f"[{e.sig}] {e.msg}")
        print(f"VIOLATION property={pid} replay={o.file}")
        sys.exit(1)
    elif o.cmd == "call":
        engine.prop_module(o.prop).call(*o.args)


if __name__ == "__main__":
    main()
