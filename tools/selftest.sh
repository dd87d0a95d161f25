#!/bin/bash
# Same seed, different numbers of workers: the same evaluations, counters and distinct states.
# Usage: tools/selftest.sh [runs] [property...]
here=$(cd "$(dirname "$0")/.." && pwd); n=${1:-400}; shift
out=$(mktemp -d); bad=0
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13}; do
  for w in 2 7 7; do
    VERIF_SEED=5 "$here/check" $p --runs $n --workers $w > "$out/log" 2>&1 || { cat "$out/log"; bad=1; }
    /opt/venv/bin/python - "$here/evidence/$p.json" <<'P' >> "$out/$p"
import hashlib, json, sys
c = json.load(open(sys.argv[1]))["coverage"]
print(json.dumps({k: c[k] for k in ("evaluations", "distinct_nontrivial", "simulated_runs", "simulated_steps", "counters", "operations", "faults_injected", "probes", "distinct")}, sort_keys=True))
P
  done
  if [ "$(sort -u "$out/$p" | wc -l)" = 1 ]; then echo "$p: reproducible"; else echo "$p: NOT REPRODUCIBLE"; bad=1; sort -u "$out/$p" | cut -c1-1500; fi
done
rm -rf "$out"; exit $bad
