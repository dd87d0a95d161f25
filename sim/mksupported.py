"""Merge learned counts into supported.json: python mksupported.py FILE..."""
import json, os, sys
from collections import Counter

yes, no = Counter(), Counter()
for f in sys.argv[1:]:
    d = json.load(open(f))
    yes.update(d["yes"]); no.update(d["no"])
MIN = 40
t = sorted(k for k, n in yes.items() if n >= MIN and not no.get(k))
mixed = sorted((no[k], yes[k], k) for k in yes if no.get(k))
json.dump({"min": MIN, "supported": t}, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "supported.json"), "w"), indent=0)
print(len(t), "supported;", len(yes), "seen;", len(mixed), "mixed")
for m in mixed[-40:]: print(m)
tot=sum(yes.values()); print("covered calls", sum(yes[k] for k in t)/tot)
