"""Writes MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
CLAIMED = json.load(open(os.path.join(HERE, "claimed.json")))
TECH = "deterministic simulation with fault injection: "
NA = {
    "C14": "which structure a result has is a pure function of the operand structures (dispatch): no concurrency, time, I/O, fault or history enters; C01 and C13 check that history and configuration do not change it",
    "C15": "argument validation is a pure check on the arguments of one call; no schedule, fault or history enters (C03 uses failing calls as faults)",
    "C16": "shapes and data types are pure functions of the stored parts; C01 compares reported shapes as part of its histories, data types have nothing for a simulator to vary",
    "C17": "text output is a pure function of the stored parts and has no semantic reference other than the implementation",
    "C18": "accuracy limits and cost are numerical-analysis properties of single calls; a simulator has no schedule or fault to vary and measured time is outside its control",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i} --tier quick",
            "thorough_cmd": f"./check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH + c["technique"],
            "level": "exploration",
            "level_note": c["note"],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: its simulation is still being built")})
m = {
    "version": 1,
    "setup_cmd": "./check setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: interleavings and faults are injected through interpreter monitoring events (PEP 669) on the library's unmodified code objects, through the random state and random backends it is given, and through its warning, tracing and control-flow seams.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
