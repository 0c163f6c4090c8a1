"""Whole-program panic-freedom: worklist over functions, with small callees expanded in context."""
from terms import *
from interp import Interp, State, INTS, irange, OPTION, RESULT
from par import pmap
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))


def load_cuts():
    return set(json.load(open(os.path.join(HERE, "cuts.json"))))


_cuts = None


def opaque_pred(extra=()):
    """functions of the confirmed tree that are analysed on their own; anything else is expanded in its callers"""
    global _cuts
    if _cuts is None:
        _cuts = load_cuts()
    return lambda b: b.name in _cuts


def opaque_callees(it):
    out = set()
    for e in it.events:
        if e.kind == "call" and e.d.get("local") and e.d["info"]["body"] is not None:
            out.add(e.d["info"]["body"].key)
    return out
