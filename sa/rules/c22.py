"""Flags and packed values: every accessor pair is about its own bits and nothing else."""
import json
import os
from dapi import *
from bits import Bits, NoBits, leaf_ty
from records import SPEC

SPECF = os.path.join(SPEC, "flags.json")


def call(p, b, self_v, args=()):
    """(cases [(pc, self after, result)]) of one method on the given value"""
    it = Unroll(p)
    it.events_off = True
    it.deadline = time.time() + 60
    st = State()
    st.store[("O", "self")] = self_v
    a0 = SELF if b.locals[1][0] == "ref" else self_v
    out = [(s.pc, s.store[("O", "self")], it.val(s, v)) for s, v in it.run(b, args=[a0] + list(args), st=st)]
    return out, it.analysed


def accessors(p):
    """{type: {property: (getter, setter)}} of all types with public plain accessors"""
    ms = {}
    for b in p.bodies.values():
        if b.isfn and not b.trait and b.self_ty and b.self_ty[0] == "adt" and b.vis == "pub":
            ms.setdefault(b.self_ty[1], {})[b.method] = b
    out = {}
    for t, m in sorted(ms.items()):
        for n, g in sorted(m.items()):
            if g.argc != 1 or not (g.locals[0] == ("bool",) or g.locals[0][0] == "int"):
                continue
            s = m.get("set_" + n) or m.get("set_" + n.replace("maintenance", "mainenance"))
            if s is None or s.argc != 2 or s.locals[2] != g.locals[0]:
                continue
            out.setdefault(t, {})[n] = (g, s)
    return out


def masks(p, T, g, bits, fns):
    """{leaf field: mask} the getter depends on"""
    dep = {}
    for pc, _, v in call(p, g, mk("sym", "self"))[0]:
        vs = [bits.cond(v)] if g.locals[0] == ("bool",) else bits.num(v)
        for x in vs + [bits.guard(pc)]:
            for a in B.support(x):
                if a.op == "bit":
                    dep[show(a.a[0])] = dep.get(show(a.a[0]), 0) | 1 << a.a[1]
    return dep


def value(bits, cs, isbool):
    """the result over all cases as one bit list"""
    out = None
    for pc, _, v in cs:
        g = bits.guard(pc)
        x = [bits.cond(v)] if isbool else bits.num(v)
        out = [B.AND(g, y) for y in x] if out is None else [B.OR(o, B.AND(g, y)) for o, y in zip(out, x)]
    return out


def typed(p, rep, T, m, spec):
    S = mk("sym", "self")
    V = mk("sym", "val")
    before = {}
    for n, (g, s) in m.items():
        vt = s.locals[2]
        bits = Bits(leaf_ty(p, {"self": ("adt", T), "val": vt}))
        key = "%s::%s" % (T.split("::")[-1], n)
        isbool = vt == ("bool",)
        dep = masks(p, T, g, bits, None)
        want = spec.get(key)
        if want is not None:
            got = {k.replace("self.", ""): v for k, v in dep.items()}
            rep.check(sorted(got.values()) == sorted(want.values()), "documented bits", key, "%s (%s)" % (g.name, g.span),
                      "the accessor looks at %s, the format assigns it %s" % (hexs(got), hexs(want)))
        w = sum(bin(x).count("1") for x in dep.values())
        cs, fns = call(p, s, S, [V])
        rep.functions |= fns
        # what is read after setting
        after = []
        for pc, now, _ in cs:
            r, fns = call(p, g, now)
            rep.functions |= fns
            after += [(B.AND(pc, q), None, v) for q, _, v in r]
        got = value(bits, after, isbool)
        val = [bits.cond(V)] if isbool else bits.num(V)
        lost = [i for i in range(min(w, len(val))) if got[i] != val[i]]
        rep.check(not lost, "set and get", key, "%s (%s)" % (s.name, s.span), "after setting it, %s is not what was set%s" % (n, "" if isbool else " (bits %s)" % lost))
        # everything else the type offers stays
        for n2, (g2, s2) in m.items():
            if n2 == n:
                continue
            b2 = g2.locals[0] == ("bool",)
            if n2 not in before:
                before[n2] = call(p, g2, S)[0]
            after = []
            for pc, now, _ in cs:
                after += [(B.AND(pc, q), None, v) for q, _, v in call(p, g2, now)[0]]
            rep.check(value(bits, before[n2], b2) == value(bits, after, b2), "independent", "%s leaves %s" % (key, n2), "%s (%s)" % (s.name, s.span),
                      "setting %s changes what %s gives" % (n, n2), sample="%s: setting %s does not change %s" % (T.split("::")[-1], n, n2))
        for pc, now, _ in cs:
            df = diff(S, now)
            fs = {pname(p, z[0]) for z in df}
            rep.check(len(fs) <= 1, "one field", key, "%s (%s)" % (s.name, s.span), "setting %s changes %s" % (n, sorted(fs)))
            # the bits of the field that are not the flag's stay
            for path, a, b in df:
                if bits.typ(a) in INTS:
                    x, y = bits.num(a), bits.num(b)
                    mine = dep.get(show(a), 0)
                    for i in range(len(x)):
                        if not (mine >> i) & 1 and B.AND(bits.guard(pc), bits.xor(x[i], y[i])) != 0:
                            rep.bad("other bits", key, "%s (%s)" % (s.name, s.span), "setting %s changes bit %d of the field, which is not its own" % (n, i))
                            break
                    else:
                        rep.ok("other bits", key)
        rep.count("accessor pairs")
    return m


def hexs(d):
    return {k: hex(v) for k, v in d.items()}


def getters_of(p):
    return accessors(p)


def run(p, rep):
    rep.rule = ("For every public accessor pair x()/set_x(v) of a boolean or integer property (all types of the crate): the summaries of getter and setter are "
                "computed symbolically on an arbitrary value and compared bit by bit (BDDs over the bits of the fields): x() after set_x(v) is v; no other accessor of the "
                "type, no other bit of the field and no other field changes; and the bits x() looks at are those of the reviewed table (DXF reference).")
    spec = json.load(open(SPECF)) if os.path.exists(SPECF) else {}
    acc = accessors(p)
    for T, m in acc.items():
        try:
            typed(p, rep, T, m, spec)
        except (NoBits, Unsupported, Bound) as e:
            __import__("report").und("UNDECIDED %s: %s" % (T, str(e)[:200]))
    rep.floor("accessor pairs", len(spec) * 2 // 3)


def freeze(p):
    out = {}
    for T, m in accessors(p).items():
        for n, (g, s) in m.items():
            bits = Bits(leaf_ty(p, {"self": ("adt", T), "val": s.locals[2]}))
            out["%s::%s" % (T.split("::")[-1], n)] = {k.replace("self.", ""): v for k, v in masks(p, T, g, bits, None).items()}
    json.dump(out, open(SPECF, "w"), indent=1, sort_keys=True)


if __name__ == "__main__":
    import build, mir
    freeze(mir.Prog(build.dump()))
