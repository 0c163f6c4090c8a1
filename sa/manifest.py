"""regenerates MANIFEST.json from properties.jsonl and the table of implemented rules"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = {}
exec(open(os.path.join(V, "sa", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH and os.path.exists(os.path.join(V, "sa", "rules", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH[i], "level": "other", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check is claimed for it yet")})
m = {"version": 1, "setup_cmd": "python3 sa/build.py", "checks": checks, "not_applicable": na,
     "notes": "static analysis only: every check dumps the type-checked MIR of /repo's current tree (rustc_private driver) and decides its rule over it"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
