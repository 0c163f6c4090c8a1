"""writes spec/singles.json: the fields that come back when they alone differ from the default"""
import json
import os
import build
import mir
from instance import *
from par import pmap

p = mir.Prog(build.dump())
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec")
out = {}
todo = [(k, v[0], vi, f, ver) for k, ty in (("object", OT), ("entity", ET)) for vi, v in enumerate(p.adts[ty]["variants"]) for f in singles(p, v[2][0][1][1]) for ver in (13, len(versions(p)) - 1)]


import par
par.PER_TASK = 20


def one(j):
    k, T, vi, f, ver = j
    r, _ = trip(p, k, vi, 0, ver, only=f)
    return "absent" if r is None else r[f]


for (k, T, vi, f, ver), r, e in pmap(one, todo):
    if e:
        print("no verdict", T, f, e.strip().splitlines()[-1][:100])
    elif r is None:
        out.setdefault(k, {}).setdefault(T, {}).setdefault(f, []).append(versions(p)[ver])
    elif r != "absent":
        print("does not come back", T, f, versions(p)[ver], r)
json.dump(out, open(os.path.join(D, "singles.json"), "w"), indent=1, sort_keys=True)
