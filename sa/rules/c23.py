"""Numbers and names of the enumerations."""
import json
import os
from dapi import *
from records import SPEC

SPECF = os.path.join(SPEC, "enums.json")
AV = "enums::AcadVersion"


def num(v):
    """discriminants are dumped as unsigned"""
    n = int(v)
    return n - (1 << 64) if n >= 1 << 63 else n


def where(b):
    return "%s (%s)" % (b.name, b.span)


def fprim(p):
    out = {}
    for b in p.bodies.values():
        if b.trait and b.trait.endswith("FromPrimitive") and b.isfn and b.self_ty and b.self_ty[0] == "adt":
            out.setdefault(b.self_ty[1], {})[b.method] = b
    return out


def go(p, b, args, st=None, hooks=None):
    it = Unroll(p, hooks=dict(hooks or {}))
    it.events_off = True
    it.deadline = time.time() + 60
    st = st or State()
    return it, it.run(b, args=args, st=st)


def number(p, b, n):
    """set of possible results for a number: variant indexes or None"""
    it, res = go(p, b, [n])
    out = []
    for s, v in res:
        for g, x in (v.a[0] if v.op == "phi" else ((1, v),)):
            out.append((B.AND(s.pc, g), x))
    return it, out


def numbers(p, rep, spec):
    for T, ms in sorted(fprim(p).items()):
        vs = p.adts[T]["variants"]
        want = spec.get(T, {})
        name = T.split("::")[-1]
        disc = {v[0]: num(v[1]) for v in vs}
        for k, n in want.items():
            rep.check(disc.get(k) == n, "number of a value", "%s::%s" % (name, k), T, "%s::%s is number %s, the format has %d" % (name, k, disc.get(k), n))
        for m, b in sorted(ms.items()):
            ty = b.locals[1][1]
            try:
                for i, v in enumerate(vs):
                    n = num(v[1])
                    if n < 0 and ty == "u64":
                        continue
                    it, r = number(p, b, kint(ty, n))
                    rep.functions |= it.analysed
                    ok_ = all(x.op == "agg" and x.a[1] == 1 and x.a[2][0].op == "agg" and x.a[2][0].a[:2] == (T, i) for g, x in r if g != 0)
                    rep.check(ok_ and bool(r), "value of a number", "%s %s(%d)" % (name, m, n), where(b), "%d is not taken as %s::%s" % (n, name, v[0]))
                N = mk("sym", "n")
                it, r = number(p, b, N)
                known = {num(v[1]) for v in vs} | {int(v[1]) for v in vs}
                for g, x in r:
                    rest = B.restrict(g, lambda a: False if a.op == "eq" and a.a[0] is N and is_k(a.a[1]) and a.a[1].a[1] in known else None)
                    if rest != 0:
                        rep.check(x.op == "agg" and x.a[1] == 0, "other numbers", "%s %s" % (name, m), where(b), "a number that is no %s is taken as one: %s" % (name, show(x)[:80]))
            except (Unsupported, Bound) as e:
                __import__("report").und("UNDECIDED %s: %s" % (b.name, str(e)[:100]))
        rep.count("enumerations")


def bodies(p, T, trait, method):
    return [b for b in p.bodies.values() if b.isfn and b.self_ty == ("adt", T) and b.method == method and (b.trait or "").endswith(trait)]


def display(p, T, i):
    """the text Display gives for variant i"""
    got = []

    def w(it, st, fr, args, info):
        v = it.val(st, args[1])
        if v.op == "fmtargs":
            import models
            v = models.plain_format(v)
        got.append(v)
        return [(st, mk("agg", "std::result::Result", 0, (UNIT,)))]
    b = bodies(p, T, "Display", "fmt")[0]
    hooks = {n: w for n in ("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Formatter::<'_>::write_fmt", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_fmt",
                            "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str", "std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'a>::pad", "<str as std::fmt::Display>::fmt")}
    st = State()
    st.store[("O", "self")] = mk("agg", T, i, ())
    st.store[("O", "f")] = mk("sym", "f")

    def sfmt(it, st, fr, args, info):
        got.append(it.val(st, args[0]))
        return [(st, mk("agg", "std::result::Result", 0, (UNIT,)))]
    hooks["<str as std::fmt::Display>::fmt"] = sfmt
    it, res = go(p, b, [SELF, mk("ref", ("O", "f"), ())], st, hooks)
    if len(got) != 1 or got[0] is None or not is_k(got[0]):
        raise Unsupported("%s: the text written for %s is not a constant: %s" % (b.name, p.adts[T]["variants"][i][0], [show(x)[:60] for x in got if x is not None]))
    return it, b, got[0].a[1]


def results(it, res):
    for s, v in res:
        for g, x in (v.a[0] if v.op == "phi" else ((1, v),)):
            g = B.AND(s.pc, g)
            if g != 0:
                if x.op == "agg" and x.a[2] and x.a[2][0].op == "phi":
                    for g2, y in x.a[2][0].a[0]:
                        if B.AND(g, g2) != 0:
                            yield B.AND(g, g2), mk("agg", x.a[0], x.a[1], (y,))
                else:
                    yield g, x


def version_names(p):
    vs = p.adts[AV]["variants"]
    b = [b for b in p.bodies.values() if b.isfn and not b.trait and b.self_ty == ("adt", AV) and b.argc == 1 and b.locals[0][:2] == ("adt", "std::result::Result")][0]
    S = mk("sym", "name")
    it, res = go(p, b, [S])
    names = set()
    r = list(results(it, res))
    for g, x in r:
        for a in B.support(g):
            for k in a.a:
                if isinstance(k, T) and is_k(k) and k.a[0] == "str":
                    names.add(k.a[1])
    table = {}
    for n in sorted(names):
        it2, r2 = go(p, b, [kstr(n)])
        xs = [x for g, x in results(it2, r2)]
        if len(xs) == 1 and xs[0].a[1] == 0 and xs[0].a[2][0].op == "agg":
            table[n] = vs[xs[0].a[2][0].a[1]][0]
    other = []
    for g, x in r:
        g2 = B.restrict(g, lambda a: False if a.op == "eq" and any(isinstance(k, T) and is_k(k) for k in a.a) else None)
        if g2 != 0:
            other.append(x)
    return it, b, table, other


def versions_(p, rep, spec):
    vs = [v[0] for v in p.adts[AV]["variants"]]
    want = spec["versions"]
    rep.check([v for v in vs if v in want["order"]] == want["order"], "order of versions", "AcadVersion", AV, "the versions are ordered %s" % vs)
    it, b, table, other = version_names(p)
    rep.functions |= it.analysed
    for n, v in want["names"].items():
        rep.check(table.get(n) == v, "version of a name", n, where(b), "%s is taken as %s, it names %s" % (n, table.get(n), v))
    rep.check(all(x.op == "agg" and x.a[1] == 1 for x in other) and other, "unknown version", "AcadVersion::from", where(b), "an unknown version name is not reported as an error")
    for i, v in enumerate(vs):
        it, d, s = display(p, AV, i)
        rep.functions |= it.analysed
        rep.check(want["display"].get(v, s) == s, "name of a version", v, where(d), "%s is written as %s, its name is %s" % (v, s, want["display"].get(v)))
        back = "R12" if v == "R11" else v
        rep.check(table.get(s) == back, "version round trip", v, where(d), "%s is written as %s, which is read as %s" % (v, s, table.get(s)))
    safe = [b for b in p.bodies.values() if b.isfn and not b.trait and b.self_ty == ("adt", AV) and b.argc == 1 and b.locals[0] == ("adt", AV)]
    for b in safe:
        for n, v in want["names"].items():
            it, res = go(p, b, [kstr(n)])
            xs = [x for g, x in results(it, res)]
            rep.check(len(xs) == 1 and xs[0].op == "agg" and vs[xs[0].a[1]] == v, "version of a name", "%s %s" % (b.method, n), where(b), "%s is taken as %s" % (n, [show(x)[:60] for x in xs]))
        it, res = go(p, b, [kstr("no such version")])
        xs = [x for g, x in results(it, res)]
        rep.check(len(xs) == 1 and xs[0].op == "agg" and vs[xs[0].a[1]] == "R12", "unknown version", b.method, where(b), "a file with an unknown version is read as %s, not as R12" % [show(x)[:60] for x in xs])


def run(p, rep):
    rep.rule = ("Every enumeration stored as a number: the number of each value equals the reviewed table (DXF reference), the conversion from a number gives exactly the value with "
                "that number, and no value for any other number (symbolic number). Version names: table of recognised names, symbolic unknown name, the text written for each version, its re-reading, and the order of versions.")
    spec = json.load(open(SPECF))
    numbers(p, rep, spec)
    versions_(p, rep, spec)
    rep.floor("enumerations", len(spec) * 2 // 3)


def freeze(p):
    out = {}
    for T_ in fprim(p):
        out[T_] = {v[0]: num(v[1]) for v in p.adts[T_]["variants"]}
    vs = [v[0] for v in p.adts[AV]["variants"]]
    out["versions"] = {"order": vs, "names": version_names(p)[2], "display": {v: display(p, AV, i)[2] for i, v in enumerate(vs)}}
    json.dump(out, open(SPECF, "w"), indent=1, sort_keys=True)


if __name__ == "__main__":
    import build, mir
    freeze(mir.Prog(build.dump()))
