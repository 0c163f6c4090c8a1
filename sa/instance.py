"""Save and load of single records with lists of known length: all fields at their default except the lists, whose elements are distinct
unknowns. The writer's own code gives the pairs, the reader's own code (put-back included) consumes them; every element must come back."""
import re
import models
import scen
import rtrip
from dapi import *
from rtrip import OT, HW, HR, VS
from rt import versions, mkpair, CP

ET = "generated::entities::EntityType"
OBJ = "generated::objects::Object"
PB = "code_pair_put_back::CodePairPutBack"
VEC = "std::vec::Vec"


def default(p, t, depth=0):
    """the Default::default() of a type"""
    d = models.default_of(None, t)
    if d is not None:
        return d
    if t[0] != "adt" or t[1] not in p.adts:
        raise Unsupported("default of %s" % (t,))
    for b in p.bodies.values():
        if b.isfn and b.method == "default" and (b.trait or "").endswith("Default") and b.self_ty == t:
            it = Unroll(p)
            it.events_off = True
            res = it.run(b, args=[])
            if len(res) == 1:
                return it.val(res[0][0], res[0][1])
    raise Unsupported("default of %s" % t[1])


def unknown(p, t, name):
    """an arbitrary value of a type, structure known, leaves unknown"""
    if t[0] == "adt" and t[1] in p.adts and t[1] != VEC:
        a = p.adts[t[1]]
        if len(a["variants"]) == 1 and a["variants"][0][2] is not None and not t[1].startswith(("std::", "core::", "alloc::", "chrono::", "uuid::")):
            return mk("agg", t[1], 0, tuple(unknown(p, f[1], "%s.%s" % (name, f[0])) for f in a["variants"][0][2]))
        return mk("sym", name)
    if t[0] == "adt" and t[1] == VEC:
        return mk("vec", tuple(unknown(p, t[2], "%s[%d]" % (name, i)) for i in range(2)))
    if t[0] == "tuple":
        return mk("agg", "()", 0, tuple(unknown(p, x, "%s.%d" % (name, i)) for i, x in enumerate(t[1:])))
    return mk("sym", name)


def lists(p, adt):
    return [(i, f[0], f[1]) for i, f in enumerate(p.adts[adt]["variants"][0][2]) if f[1][0] == "adt" and f[1][1] == VEC]


def opaque(b):
    return b.name.endswith(("XData::add_code_pairs", "ExtensionGroup::add_code_pairs"))


def record(p, kind, vi, n, scratch=(), only=None):
    """(entity or object, {list field: elements}) with lists of n elements; or with one field unknown"""
    top, ty = (OBJ, OT) if kind == "object" else (ENT, ET)
    adt = p.adts[ty]["variants"][vi][2][0][1][1]
    d = default(p, ("adt", adt))
    fs = list(d.a[2])
    want = {}
    for i, f, t in lists(p, adt):
        if f in scratch:
            continue
        if only is None:
            fs[i] = want[f] = mk("vec", tuple(unknown(p, t[2], "%s[%d]" % (f, k)) for k in range(n)))
    for i, f in enumerate(p.adts[adt]["variants"][0][2]):
        if f[0] == only:
            fs[i] = want[only] = unknown(p, f[1], only)
    names = [f[0] for f in p.adts[top]["variants"][0][2]]
    ct = p.adts[top]["variants"][0][2][names.index("common")][1]
    parts = {"common": default(p, ct), "specific": mk("agg", ty, vi, (mk("agg", adt, 0, tuple(fs)),))}
    return mk("agg", top, 0, tuple(parts[x] for x in names)), want, adt


class Inst(Unroll):
    LIMIT = 600
    VECCAP = 100000
    PUSHCAP = 100000


def write(p, kind, e, vi):
    top = OBJ if kind == "object" else ENT
    b = method(p, top, "add_code_pairs")
    it = Inst(p, hooks=HW)
    it.events_off = True
    st = State()
    st.store[("O", "self")] = e
    st.store[("O", "pairs")] = mk("vec", ())
    V = mk("agg", "enums::AcadVersion", vi, ())
    res = it.run(b, args=[SELF, mk("ref", ("O", "pairs"), ()), V] + ([FALSE] if b.argc == 4 else []), st=st)
    return it, [(s.pc, it.val(s, s.store[("O", "pairs")])) for s, _ in res]


def read(p, kind, pairs):
    top = OBJ if kind == "object" else ENT
    it = Inst(p, hooks=HR)
    it.events_off = True
    st = State()
    end = mkpair(p, 0, kstr("ENDSEC"))
    fs = {"top": mk("vec", tuple(ok(x) for x in reversed(pairs + (end,)))), "iter": mk("sym", "no more input")}
    st.store[("O", "it")] = mk("agg", PB, 0, tuple(fs[f[0]] for f in p.adts[PB]["variants"][0][2]))
    res = it.run(method(p, top, "read"), args=[mk("ref", ("O", "it"), ())], st=st)
    return it, res


LENGTHS = (0, 1, 2, 3, 5, 17, 40)


def pairs_of(sc, t):
    """the pairs written, as a tuple"""
    more = []
    while True:
        if t.op == "phi":
            xs = [x for g, x in t.a[0] if sc.guard(g)]
            if len(xs) != 1:
                raise Unsupported("pairs written: %s" % show(t)[:80])
            t = xs[0]
        elif t.op == "pushed":
            more.append(t.a[1])
            t = t.a[0]
        elif t.op == "vec":
            return t.a[0] + tuple(reversed(more))
        else:
            raise Unsupported("pairs written: %s" % show(t)[:80])


PLAIN = ("eq", "lt", "le", "flt", "fle", "feq")


def trip(p, kind, vi, n, ver, scratch=(), known=None, only=None):
    """({list field: None (comes back) or what is wrong} for lists of n elements, or None when the version does not have the record; functions)"""
    e, want, adt = record(p, kind, vi, n, scratch, only)
    it, ps = write(p, kind, e, ver)
    out = {f: None for f in want}
    fns = set(it.analysed)
    none = []
    names = [f[0] for f in p.adts[ENT if kind == "entity" else OBJ]["variants"][0][2]]
    top = [f[0] for f in p.adts[PB]["variants"][0][2]].index("top")
    memo, dm = {}, {}

    def fail(sc, d):
        if any(a.op not in PLAIN for a in sc.env):
            raise Unsupported("case %s" % [show(a)[:60] for a in sc.env if a.op not in PLAIN][0])
        out.update(d)

    def case(sc):
        for g, v in ps:
            if not sc.guard(g):
                continue
            x = pairs_of(sc, v)
            if not x:
                none.append(1)
                continue
            if x not in memo:
                memo[x] = read(p, kind, x)
            ir, res = memo[x]
            fns.update(ir.analysed)
            for s, r in res:
                if not sc.guard(s.pc):
                    continue
                r = sc.red(deep(ir.val(s, r), dm))
                if r.op != "agg" or r.a[0] != RESULT:
                    raise Unsupported("result of reading: %s" % show(r)[:80])
                o = r.a[2][0]
                if r.a[1] != 0 or o.op != "agg" or o.a[1] != 1:
                    fail(sc, {f: "reading fails" if r.a[1] else "no record is read" for f in want})
                    continue
                rest = sc.red(ir.val(s, sc.red(ir.val(s, s.store[("O", "it")])).a[2][top]))
                if rest.op != "vec":
                    raise Unsupported("pairs left: %s" % show(rest)[:80])
                sp = sc.red(ir.val(s, sc.red(ir.val(s, o.a[2][0])).a[2][names.index("specific")]))
                if sp.op != "agg" or sp.a[1] != vi:
                    fail(sc, {f: "another record is read" for f in want})
                    continue
                b = sc.red(ir.val(s, sp.a[2][0]))
                for i, (f, t) in enumerate(x[:2] for x in p.adts[adt]["variants"][0][2]):
                    if f not in want or out[f] is not None:
                        continue
                    got = sc.red(ir.val(s, b.a[2][i]))
                    w = want[f]
                    if got is not w:
                        m = wrong(p, sc.canon(got), sc.canon(w), (known or {}).get(f, {}))
                        if m is not None:
                            fail(sc, {f: m})
                    elif len(rest.a[0]) != 1:
                        fail(sc, {f: "%d pairs are left over" % (len(rest.a[0]) - 1)})
    try:
        scen.explore(case, 300)
    except scen.TooMany:
        raise Unsupported("too many cases")
    return (None if none else out), fns


def plain(t):
    """without the conversions a narrower group code or a flag stored as a number brings"""
    while t.op == "cast" and t.a[0].op == "cast":
        t = t.a[0].a[0]
    if t.op == "phi" and len(t.a[0]) == 2 and {x for _, x in t.a[0]} == {TRUE, FALSE}:
        g = [g for g, x in t.a[0] if x is TRUE][0]
        n = B.nodes[g]
        if n[1:] == (0, 1):
            return B.atoms[n[0]]
    return t


def deep(t, memo):
    r = memo.get(t)
    if r is None:
        r = plain(t)
        if r is t:
            if t.op == "agg":
                r = mk("agg", t.a[0], t.a[1], tuple(deep(x, memo) for x in t.a[2]))
            elif t.op == "vec":
                r = mk("vec", tuple(deep(x, memo) for x in t.a[0]))
            elif t.op == "pushed":
                r = mk("pushed", deep(t.a[0], memo), deep(t.a[1], memo))
            elif t.op == "phi":
                r = mk("phi", tuple((g, deep(x, memo)) for g, x in t.a[0]))
        memo[t] = r
    return r


def leaves(p, got, want, path, out):
    """{path: value} of the leaves of an element that differ"""
    got = plain(got)
    if got is want:
        return
    if got.op == want.op == "agg" and got.a[:2] == want.a[:2] and got.a[0] in p.adts:
        for f, x, y in zip(p.adts[got.a[0]]["variants"][got.a[1]][2], got.a[2], want.a[2]):
            leaves(p, x, y, path + "." + f[0], out)
        return
    if got.op == want.op == "vec" and len(got.a[0]) == len(want.a[0]):
        for x, y in zip(got.a[0], want.a[0]):
            leaves(p, x, y, path + "[]", out)
        return
    out[path] = show(got)[:120]


def wrong(p, got, want, known):
    if want.op != "vec":
        d = {}
        leaves(p, got, want, "", d)
        return "comes back with %s" % sorted(d.items())[0][1] if d else None
    if got.op != "vec":
        raise Unsupported("list read: %s" % show(got)[:80])
    if len(got.a[0]) != len(want.a[0]):
        return "%d elements come back instead of %d" % (len(got.a[0]), len(want.a[0]))
    for i, (a, b) in enumerate(zip(got.a[0], want.a[0])):
        d = {}
        leaves(p, a, b, "", d)
        for k, v in d.items():
            if known.get(k) != re.sub(r"\[\d+\]", "[]", v):
                return "element %d%s comes back as %s" % (i, k, v)


def jobs(p, spec):
    for T in sorted(spec):
        for kind, ty in (("object", OT), ("entity", ET)):
            if T in spec and spec[T]["kind"] == kind:
                yield T, p.variant_ix(ty, T)


def check(p, rep, kind):
    """the lists of every record type, of several lengths, in every version that stores them (spec/lists.json)"""
    import json
    import os
    import report
    from par import pmap
    spec = {T: d for T, d in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec", "lists.json"))).items() if d["kind"] == kind}
    V = versions(p)
    todo = []
    for T in sorted(spec):
        vix = p.variant_ix(OT if kind == "object" else ET, T)
        if vix is not None:
            todo += [(T, vix, v) for v in sorted({v for f in spec[T]["lists"].values() for v in f["versions"]})]

    def one(job):
        T, vix, v = job
        d = spec[T]
        out, fns = [], set()
        for n in [n for n in LENGTHS if n <= d["longest"]]:
            try:
                r, f = trip(p, kind, vix, n, V.index(v), d["scratch"], {k: x["leaves"] for k, x in d["lists"].items()})
            except (Unsupported, Bound) as e:
                out.append((n, None, str(e)[:160]))
                continue
            fns |= f
            out.append((n, r, None))
        return out, sorted(fns)
    for (T, vix, v), res, e in pmap(one, todo):
        if e:
            report.und("UNDECIDED lists of %s in %s: %s" % (T, v, e.strip().splitlines()[-1][:160]))
            rep.count("undecided")
            continue
        rep.functions |= set(res[1])
        for n, r, u in res[0]:
            if u:
                report.und("UNDECIDED lists of %s with %d elements in %s: %s" % (T, n, v, u))
                rep.count("undecided")
                continue
            for f, x in spec[T]["lists"].items():
                if v in x["versions"] and (r is None or f in r):
                    msg = "the record is not written" if r is None else r[f]
                    rep.check(msg is None, "lists of known length", "%s.%s" % (T, f), T, "%s.%s with %d elements in %s: %s" % (T, f, n, v, msg), "%s.%s" % (T, f))


SIMPLE = ("int", "float", "bool")


def simple(p, t):
    return t[0] in SIMPLE or t[0] == "adt" and (t[1] == "std::string::String" or t[1] in p.adts and p.adts[t[1]]["local"] and not any(f[1][:2] == ("adt", VEC) for v in p.adts[t[1]]["variants"] for f in v[2] or ()))


def singles(p, adt):
    return [f[0] for f in p.adts[adt]["variants"][0][2] if simple(p, f[1])]


def fallback(p, rep, kind, undecided):
    """record types the general argument does not decide: each field by itself, all others at their default (spec/singles.json)"""
    import json
    import os
    import report
    from par import pmap
    spec = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec", "singles.json"))).get(kind, {})
    todo = []
    for T in sorted(undecided):
        vix = p.variant_ix(OT if kind == "object" else ET, T)
        todo += [(T, vix, f, v) for f, vs in sorted(spec.get(T, {}).items()) for v in vs]

    def one(job):
        T, vix, f, v = job
        r, fns = trip(p, kind, vix, 0, versions(p).index(v), only=f)
        return "the record is not written" if r is None else r.get(f), sorted(fns)
    for (T, vix, f, v), r, e in pmap(one, todo):
        if e:
            report.und("UNDECIDED %s.%s in %s: %s" % (T, f, v, e.strip().splitlines()[-1][:160]))
            rep.count("undecided")
            continue
        rep.functions |= set(r[1])
        rep.check(r[0] is None, "single fields", "%s.%s" % (T, f), T, "%s.%s in %s: %s" % (T, f, v, r[0]), "%s.%s" % (T, f))
