"""Evaluation of an extracted term for given values of its unknowns (used to exhibit a witness for a condition whose form is not recognised)."""
from terms import B, is_k, fval


class Unknown(Exception):
    pass


STR = {"trim": str.strip, "trim_start": str.lstrip, "trim_end": str.rstrip, "to_uppercase": str.upper, "to_lowercase": str.lower,
       "to_ascii_uppercase": str.upper, "to_ascii_lowercase": str.lower}


def ceval(t, env):
    if t in env:
        return env[t]
    if is_k(t):
        return fval(t)
    o = t.op
    if o == "phi":
        for g, v in t.a[0]:
            if guard(g, env):
                return ceval(v, env)
        raise Unknown("no case")
    if o == "len":
        s = ceval(t.a[0], env)
        return len(s.encode()) if isinstance(s, str) else len(s)
    if o in STR and len(t.a) == 1:
        return STR[o](ceval(t.a[0], env))
    if o in ("eq", "lt", "le", "flt", "fle", "feq"):
        a, b = ceval(t.a[0], env), ceval(t.a[1], env)
        if o == "eq" or o == "feq":
            return a == b
        return a < b if o in ("lt", "flt") else a <= b
    if o == "not":
        return not ceval(t.a[0], env)
    if o in ("fAdd", "fSub", "fMul") or o in ("Add", "Sub", "Mul"):
        a, b = ceval(t.a[0], env), ceval(t.a[1], env)
        return a + b if o.endswith("Add") else a - b if o.endswith("Sub") else a * b
    if o in ("fNeg", "Neg", "neg", "fneg"):
        return -ceval(t.a[0], env)
    if o in ("fabs", "iabs", "abs"):
        return abs(ceval(t.a[0], env))
    if o in ("fmax", "max"):
        return max(ceval(t.a[0], env), ceval(t.a[1], env))
    if o in ("fmin", "min"):
        return min(ceval(t.a[0], env), ceval(t.a[1], env))
    raise Unknown(o)


def guard(g, env):
    while g > 1:
        v, lo, hi = B.nodes[g]
        g = hi if ceval(B.atoms[v], env) else lo
    return g == 1
