"""Value types and constructors hold what they are given."""
import json
import os
from dapi import *
from bits import Bits, NoBits, leaf_ty
from records import SPEC

SPECF = os.path.join(SPEC, "constructors.json")


def where(b):
    return "%s (%s)" % (b.name, b.span)


def go(p, b, args, st=None):
    it = Unroll(p)
    it.events_off = True
    it.deadline = time.time() + 60
    return it, it.run(b, args=args, st=st or State())


def assoc(p, T):
    """public associated functions (no self) of type T returning T"""
    out = {}
    for b in p.bodies.values():
        if b.isfn and not b.trait and b.self_ty and b.self_ty[:2] == ("adt", T) and b.vis == "pub" and b.locals[0][:2] == ("adt", T) \
                and not any(a[:2] == ("adt", T) or (a[0] == "ref" and a[1][:2] == ("adt", T)) for a in b.locals[1:1 + b.argc]):
            out[b.method] = b
    return out


def default_of(p, T):
    for b in p.bodies.values():
        if b.isfn and b.method == "default" and (b.trait or "").endswith("Default") and b.self_ty == ("adt", T):
            it, res = go(p, b, [])
            if len(res) == 1:
                return it.val(res[0][0], res[0][1])
    return None


def text(p, x, t=None):
    """a value in words that do not depend on the layout of the types"""
    if t is not None and t[0] == "adt" and t[1] in p.adts:
        d = default_of(p, t[1])
        if d is not None and x is d:
            return "default"
    if x.op == "agg" and x.a[0] in p.adts:
        vs = p.adts[x.a[0]]["variants"]
        v = vs[x.a[1]]
        inner = ["%s: %s" % (f[0], text(p, y, f[1])) for f, y in zip(v[2], x.a[2])]
        inner = [i for i in inner if not i.endswith(": default")]
        return (v[0] if len(vs) > 1 else x.a[0].split("::")[-1]) + ("(%s)" % ", ".join(sorted(inner)) if inner else "")
    if x.op == "vec" and not x.a[0]:
        return "[]"
    return show(x)


def describe(p, T, b):
    """how the fields of the value made come from the arguments: {field: 'argN' | text of a constant}, others as in the default value"""
    flags = [i for i in range(b.argc) if b.locals[1 + i] == ("bool",)]
    out = {}
    for bv in ((True, False) if flags else (None,)):
        it, o = describe1(p, T, b, bv)
        for k, v in o.items():
            out[k + ("" if bv is None else " when %s" % bv)] = v
    return it, out


def describe1(p, T, b, bv):
    args = [kbool(bv) if b.locals[1 + i] == ("bool",) else mk("sym", "arg%d" % i) for i in range(b.argc)]
    st = State()
    real = []
    for i, a in enumerate(args):
        if b.locals[1 + i][0] == "ref":
            st.store[("O", a.a[0])] = a
            real.append(mk("ref", ("O", a.a[0]), ()))
        else:
            real.append(a)
    it, res = go(p, b, real, st)
    if len(res) != 1:
        raise Unsupported("%s has several outcomes" % b.name)
    s, v = res[0]
    v = it.val(s, v)
    d = default_of(p, T)
    out = {}
    vs = p.adts[T]["variants"]
    if len(vs) != 1:
        return it, {"value": text(p, v)}
    for k, f in enumerate(vs[0][2]):
        x = it.val(s, it.get_field(v, T, None, k))
        if d is not None and x is Interp(p).get_field(d, T, None, k) and not any(y.op == "sym" for y in walk(x)):
            continue
        x = text(p, x, f[1])
        if x != "default":
            out[f[0]] = x
    return it, out


def defaults(p):
    """{type: {field: text}} of the default values"""
    out = {}
    for T in sorted(p.adts):
        if len(p.adts[T]["variants"]) != 1 or not p.adts[T]["variants"][0][2] or T.startswith(("std::", "core::", "alloc::")):
            continue
        d = default_of(p, T)
        if d is None:
            continue
        it = Interp(p)
        out[T] = {f[0]: text(p, it.get_field(d, T, None, k), f[1]) for k, f in enumerate(p.adts[T]["variants"][0][2])}
    return out


def makers(p):
    out = {}
    for T in sorted(p.adts):
        if T in (DR,) or T.startswith("std::"):
            continue
        for n, b in sorted(assoc(p, T).items()):
            out["%s::%s" % (T.split("::")[-1], n)] = (T, b)
    return out


def constructors(p, rep, spec):
    for key, (T, b) in makers(p).items():
        if key not in spec:
            continue
        try:
            it, got = describe(p, T, b)
        except (Unsupported, Bound) as e:
            __import__("report").und("UNDECIDED %s: %s" % (b.name, str(e)[:120]))
            continue
        rep.functions |= it.analysed
        rep.count("constructors")
        want = spec[key]
        for f in sorted(set(want) | set(got)):
            rep.check(got.get(f) == want.get(f), "constructor", "%s %s" % (key, f), where(b), "%s of a new value is %s, it should be %s" % (f, got.get(f, "the default"), want.get(f, "the default")))


CO, LW, HA = "color::Color", "line_weight::LineWeight", HANDLE
# meaning of the stored number, from the DXF reference (codes 62 and 370)
MEAN = {
    CO: {"is_by_layer": lambda n: n == 256, "is_by_entity": lambda n: n == 257, "is_by_block": lambda n: n == 0, "is_turned_off": lambda n: n < 0, "is_index": lambda n: 1 <= n <= 255,
         "index": lambda n: n if 1 <= n <= 255 else None},
    LW: {"is_by_block": lambda n: n == -1, "is_by_layer": lambda n: n == -2},
}
MAKE = {
    CO: {"by_layer": 256, "by_block": 0, "by_entity": 257}, LW: {"by_block": -1, "by_layer": -2},
}
SET = {CO: {"set_by_layer": "is_by_layer", "set_by_block": "is_by_block", "set_by_entity": "is_by_entity", "turn_off": "is_turned_off"}}


def method_of(p, T, n):
    r = [b for b in p.bodies.values() if b.isfn and not b.trait and b.self_ty == ("adt", T) and b.method == n]
    return r[0] if len(r) == 1 else None


def num_eval(bits, t, env):
    """value of a term when the leaf's number is known: restrict the BDDs"""
    def fix(x):
        return B.restrict(x, lambda a: bool(env >> a.a[1] & 1) if a.op == "bit" else None)
    return fix


def numbers(p, rep):
    for T, preds in MEAN.items():
        if T not in p.adts:
            continue
        fs = p.adts[T]["variants"][0][2]
        if len(fs) != 1 or fs[0][1][0] != "int":
            __import__("report").und("UNDECIDED %s is no longer a single number" % T)
            continue
        S = mk("sym", "self")
        bits = Bits(leaf_ty(p, {"self": ("adt", T)}))
        short = T.split("::")[-1]

        def table(b, v0=S):
            st = State()
            st.store[("O", "self")] = v0
            it, res = go(p, b, [SELF if b.locals[1][0] == "ref" else v0], st)
            rep.functions |= it.analysed
            return [(s, it.val(s, v), it) for s, v in res]
        for n, f in preds.items():
            b = method_of(p, T, n)
            if b is None:
                __import__("report").und("UNDECIDED no method %s::%s" % (T, n))
                continue
            rows = table(b)
            wrong = []
            if b.locals[0] == ("bool",):
                c = 0
                for s, v, it in rows:
                    c = B.OR(c, B.AND(bits.guard(s.pc), bits.cond(v)))
                want = 0
                w = bits.width(fs[0][1][1])
                leaf = mk("fld", S, "", fs[0][0])
                N = lambda k: kint(fs[0][1][1], k)
                eqs = lambda k: bits.cond(mk("eq", leaf, N(k)))
                lt = lambda k: bits.cond(mk("lt", leaf, N(k)))
                if n == "is_turned_off":
                    want = lt(0)
                elif n == "is_index":
                    want = B.AND(lt(256), B.NOT(lt(1)))
                else:
                    want = eqs([k for k in (256, 257, 0, -1, -2) if f(k)][0])
                diffb = bits.xor(c, want)
                if diffb != 0:
                    wrong = [B.cubes(diffb, 1)]
                rep.check(diffb == 0, "meaning of a number", "%s::%s" % (short, n), where(b), "for %s the answer is wrong" % example(diffb))
            else:
                # Option<u8>
                some = none = 0
                bad = 0
                leaf = mk("fld", S, "", fs[0][0])
                N = lambda k: kint(fs[0][1][1], k)
                isx = B.AND(bits.cond(mk("lt", leaf, N(256))), B.NOT(bits.cond(mk("lt", leaf, N(1)))))
                for s, v, it in rows:
                    for g, x in (v.a[0] if v.op == "phi" else ((1, v),)):
                        g = B.AND(bits.guard(s.pc), bits.guard(g))
                        if x.a[1] == 0:
                            bad = B.OR(bad, B.AND(g, isx))
                        else:
                            bad = B.OR(bad, B.AND(g, B.NOT(isx)))
                            y = bits.num(x.a[2][0])
                            z = bits.num(leaf)
                            for i in range(8):
                                bad = B.OR(bad, B.AND(g, bits.xor(y[i], z[i])))
                rep.check(bad == 0, "meaning of a number", "%s::%s" % (short, n), where(b), "for %s the answer is wrong" % example(bad))
        for n, k in MAKE.get(T, {}).items():
            b = method_of(p, T, n)
            if b is None:
                continue
            it, res = go(p, b, [])
            rep.functions |= it.analysed
            v = it.get_field(it.val(res[0][0], res[0][1]), T, None, 0)
            rep.check(len(res) == 1 and is_k(v) and v.a[1] == k, "number of a value", "%s::%s" % (short, n), where(b), "makes %s, not %d" % (show(v)[:60], k))
        for n, q in SET.get(T, {}).items():
            b, g = method_of(p, T, n), method_of(p, T, q)
            if b is None or g is None:
                continue
            st = State()
            st.store[("O", "self")] = S
            it, res = go(p, b, [SELF], st)
            rep.functions |= it.analysed
            for s, v in res:
                ok_ = all(x is TRUE for _, x, _ in table(g, s.store[("O", "self")]))
                rep.check(ok_, "set a value", "%s::%s" % (short, n), where(b), "after %s, %s does not hold" % (n, q))
        b = method_of(p, T, "from_index")
        if b is not None:
            a = mk("sym", "arg")
            it, res = go(p, b, [a])
            bb = Bits(leaf_ty(p, {"arg": ("int", "u8")}))
            v = it.get_field(it.val(res[0][0], res[0][1]), T, None, 0)
            x = bb.num(v)
            want = bb.num(a) + [0] * (len(x) - 8)
            rep.check(len(res) == 1 and x == want, "number of a value", "%s::from_index" % short, where(b), "the colour made from an index has another number: %s" % show(v)[:80])


def example(d):
    if d == 0:
        return "every number"
    c = B.cubes(d, 1)[0]
    n = 0
    for a, v in c.items():
        if a.op == "bit" and v:
            n |= 1 << a.a[1]
    return "the number with bits %s (others arbitrary)" % hex(n)


def children(p, rep):
    """add_vertex / add_attribute: the child is appended with a handle of its own; the listings give the children themselves, in order"""
    for T in ("generated::entities::Polyline", "generated::entities::Insert"):
        L = [f for f in p.adts[T]["variants"][0][2] if f[1][:2] == ("adt", VEC) and f[1][2][0] == "tuple"]
        for b in [b for b in p.bodies.values() if b.isfn and not b.trait and b.self_ty == ("adt", T) and b.vis == "pub"]:
            short = T.split("::")[-1]
            if b.argc == 3 and b.method.startswith("add_"):
                S, D, C = mk("sym", "self"), mk("sym", "d"), mk("sym", "child")
                st = State()
                st.store[("O", "self")] = S
                st.store[("O", "d")] = D
                it, res = go(p, b, [SELF, mk("ref", ("O", "d"), ()), C], st)
                rep.functions |= it.analysed
                H0 = getf(p, D, DR, "header.next_available_handle")
                for s, v in res:
                    now, d = s.store[("O", "self")], s.store[("O", "d")]
                    df = diff(S, now)
                    f = pname(p, df[0][0]) if df else None
                    base, el = chain(df[0][2]) if len(df) == 1 else (None, [])
                    ok_ = len(df) == 1 and base is df[0][1] and len(el) == 1 and el[0].op == "agg" and el[0].a[2][0] is C
                    rep.check(ok_, "add child", "%s::%s" % (short, b.method), where(b), "what is added is not appended as it is: %s" % [show(z[2])[:80] for z in df])
                    if ok_:
                        h = el[0].a[2][1]
                        dd = diff(D, d)
                        only = all(pname(p, z[0]).endswith("next_available_handle") or pname(p, z[0]).endswith("next_available_handle.0") for z in dd) and dd
                        rep.check(h is H0 or show(h) == show(H0), "add child", "%s::%s handle" % (short, b.method), where(b), "the handle is %s, not the drawing's next one" % show(h)[:80])
                        rep.check(bool(only), "add child", "%s::%s drawing" % (short, b.method), where(b), "the drawing's next handle is not advanced (only)")
                rep.count("child operations")


def run(p, rep):
    rep.rule = ("Constructors: the value made from symbolic arguments, field by field, equals the reviewed table (which argument goes where; everything else is the default value). "
                "Colours and line weights: every question about the stored number agrees with the DXF reference for all numbers (BDD equality), and what the setters and constructors make answers yes to its own question. "
                "Adding a vertex or an attribute appends it as it is with the drawing's next handle.")
    spec = json.load(open(SPECF)) if os.path.exists(SPECF) else {}
    constructors(p, rep, spec)
    numbers(p, rep)
    children(p, rep)
    got = defaults(p)
    for T, fs in spec.get("defaults", {}).items():
        for f, x in fs.items():
            if f in got.get(T, {}):
                rep.check(got[T][f] == x, "default value", "%s.%s" % (T.split("::")[-1], f), "Default of %s" % T, "the default is %s, the format's is %s" % (got[T][f][:80], x[:80]))
                rep.count("defaults")
    rep.floor("defaults", 1000)
    rep.floor("constructors", len(spec) * 2 // 3)


def freeze(p):
    out = {}
    out["defaults"] = {T: {f: x for f, x in fs.items() if "site(" not in x and not f.startswith("_")} for T, fs in defaults(p).items()}
    for key, (T, b) in makers(p).items():
        if T in (CO, LW, HA):
            continue
        try:
            out[key] = describe(p, T, b)[1]
        except (Unsupported, Bound) as e:
            print("skipped", key, e)
    json.dump(out, open(SPECF, "w"), indent=1, sort_keys=True)


if __name__ == "__main__":
    import build, mir
    freeze(mir.Prog(build.dump()))
