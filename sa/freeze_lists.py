"""writes spec/lists.json: the lists of entities and objects that come back, with the parts of their elements the format does not store"""
import json
import os
import re
import build
import mir
import instance
from instance import *

p = mir.Prog(build.dump())
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec")
out = {}
for kind, ty, sp in (("object", OT, "objects"), ("entity", ET, "entities")):
    SP = json.load(open(os.path.join(D, sp + ".json")))
    for vi, v in enumerate(p.adts[ty]["variants"]):
        T, adt = v[0], v[2][0][1][1]
        fs = SP.get(T, {}).get("fields", {})
        scr = [x[1] for x in lists(p, adt) if x[1].startswith("__") and any("absent" in y for y in fs.get("specific<%s>.0.%s" % (T, x[1]), {}))]
        ls = [x[1] for x in lists(p, adt) if x[1] not in scr]
        if not ls or T in ("XRecordObject", "Insert", "Polyline"):
            continue
        good = {}
        for ver, vn in enumerate(versions(p)):
            known = {f: {k[len("specific<%s>.0.%s[]" % (T, f)):]: re.sub("^absent=", "", a) for k, d in fs.items() for a in d if k.startswith("specific<%s>.0.%s[]" % (T, f)) and a.startswith("absent=")} for f in ls}
            try:
                r, _ = trip(p, kind, vi, 2, ver, scr, known)
            except (Unsupported, Bound) as e:
                print("no verdict", T, vn, str(e)[:80])
                continue
            for f, m in (r or {}).items():
                if m is None:
                    good.setdefault(f, dict(versions=[], leaves=known[f]))["versions"].append(vn)
                else:
                    print("does not come back", T, f, vn, m)
        if good:
            top = 2
            for n in [n for n in LENGTHS if n > 2]:
                try:
                    trip(p, kind, vi, n, len(versions(p)) - 1, scr, {})
                    top = n
                except (Unsupported, Bound):
                    break
            out[T] = dict(longest=top, kind=kind, scratch=scr, lists=good)
json.dump(out, open(os.path.join(D, "lists.json"), "w"), indent=1, sort_keys=True)
