"""development aid: lib/weights.json from a MMV_TIMES log (only used to balance verifier processes)"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
W = os.path.join(HERE, "weights.json")
try:
    w = json.load(open(W))
except (OSError, ValueError):
    w = {}
new = {}
for l in open(sys.argv[1]):
    cfg, m = json.loads(l)
    for f in m.get("function-breakdown", []):
        p = f["function"].split("::", 1)[1]
        key = p.split("::")[0] if p.startswith("pre_") else p
        new.setdefault((key, cfg), {}).setdefault(p, f["time"])
for (key, cfg), d in new.items():
    t = sum(d.values())
    if t >= 100:
        w.setdefault(key, {})[cfg] = int(round(t, -2))
json.dump(w, open(W, "w"), indent=0, sort_keys=True)
