"""Items are found by their handle."""
from dapi import *
import dapi
DI = "drawing_item::DrawingItem"
DIM = "drawing_item::DrawingItemMut"
H = mk("sym", "handle")


def where(b):
    return "%s (%s)" % (b.name, b.span)


def handle_of(p, v, t):
    return getf(p, v, t, own_handle(p, t))


def heq(p, a, b):
    return mk("eq", a, b)


def find(p, rep, b, variants, sizes):
    """one look-up on a drawing whose lists have the given lengths"""
    L = {f: t for f, t in lists(p).items() if own_handle(p, t)}
    d = mk("sym", "self")
    el = {}
    for k, (f, t) in enumerate(L.items()):
        n = sizes(k)
        el[f] = tuple(mk("sym", "%s[%d]" % (f, i)) for i in range(n))
        d = setf(p, d, DR, f, mk("vec", el[f]))
    it, res = dapi.run(p, b, [H], drawing=d)
    rep.functions |= it.analysed
    n = [0]
    NAME = lambda f: f.strip("_")

    def case(a):
        n[0] += 1
        v = it.val(a.s, a.v) if a.v.op != "agg" else a.v
        v = a.v if a.v.op == "agg" else a.sc.red(a.v)
        if v.op == "phi":
            v = [x for g, x in v.a[0] if a.sc.guard(g)][0]
        rep.check(not diff(d, a.d), "look-up only", b.method, where(b), "looking an item up changes the drawing")
        if v is NONE or (v.op == "agg" and v.a[1] == 0):
            for f, t in L.items():
                for i, e in enumerate(el[f]):
                    rep.check(not a.sc.holds(heq(p, handle_of(p, e, t), H)), "complete", "%s %s[%d of %d]" % (b.method, NAME(f), i, len(el[f])), where(b),
                              "an item of %s with the handle asked for is not found" % NAME(f), sample="%s: not found only if %s[%d] has another handle" % (b.method, NAME(f), i))
            return
        x = v.a[2][0]
        if x.op == "phi":
            x = [y for g, y in x.a[0] if a.sc.guard(g)][0]
        vt = variants[x.a[1]]
        r = x.a[2][0]
        if r.op == "phi":
            r = [y for g, y in r.a[0] if a.sc.guard(g)][0]
        ok = r.op == "ref" and r.a[0] == ("O", "self")
        f = None
        if ok:
            for g, t in L.items():
                for i, e in enumerate(el[g]):
                    if it.read_path(a.s, *r.a) is e:
                        f, item, ft = g, e, t
        if not rep.check(f is not None, "own item", b.method, where(b), "what is returned is not an item of the drawing: %s" % show(r)[:120]):
            return
        rep.check(ft == vt[1], "kind", "%s %s" % (b.method, NAME(f)), where(b), "an item of %s is returned as %s" % (NAME(f), vt[0]))
        rep.check(a.sc.holds(heq(p, handle_of(p, item, ft), H)), "sound", "%s %s" % (b.method, NAME(f)), where(b), "an item of %s with another handle is returned" % NAME(f),
                  sample="%s: %s returned only with the handle asked for" % (b.method, show(item)))
    cases(p, it, res, case)
    rep.count("cases", n[0])
    if not n[0]:
        raise Unsupported("never returns")


def variants(p, adt):
    out = []
    for v in p.adts[adt]["variants"]:
        t = v[2][0][1]
        out.append((v[0], t[1][1]))
    return out


def accessors(p, rep):
    """handle(), set_handle() and to_drawing_item() of every variant"""
    for adt in (DI, DIM):
        for b in [b for b in p.bodies.values() if b.isfn and not b.trait and b.self_ty and b.self_ty[:2] == ("adt", adt) and b.vis == "pub"]:
            for vi, (name, t) in enumerate(variants(p, adt)):
                it = Unroll(p)
                st = State()
                x = mk("sym", "thing")
                st.store[("O", "thing")] = x
                REF = mk("ref", ("O", "thing"), ())
                st.store[("O", "item")] = mk("agg", adt, vi, (REF,))
                args = [mk("ref", ("O", "item"), ())] + [mk("sym", "h")] * (b.argc - 1)
                res = it.run(b, args=args, st=st)
                rep.functions |= it.analysed
                rep.count("accessors")
                h = handle_of(p, x, t)
                for s, v in res:
                    key = "%s::%s %s" % (adt.split("::")[-1], b.method, name)
                    now = s.store[("O", "thing")]
                    rt = b.locals[0]
                    if rt == ("adt", HANDLE):
                        rep.check(it.val(s, v) is h and now is x, "handle", key, where(b), "the handle of a %s is given as %s" % (name, show(v)[:80]))
                    elif b.argc == 2 and b.locals[2] == ("adt", HANDLE):
                        df = diff(x, now)
                        rep.check(handle_of(p, now, t) is mk("sym", "h") and len(df) == 1, "set handle", key, where(b), "setting the handle of a %s changes %s" % (name, [pname(p, z[0]) for z in df]))
                    elif rt[:2] == ("adt", DI):
                        ok = v.op == "agg" and v.a[0] == DI and variants(p, DI)[v.a[1]] == (name, t) and now is x
                        if ok:
                            r = v.a[2][0]
                            ok = (r is REF) or (r.op == "ref" and it.read_path(s, *r.a) is x)
                        rep.check(ok, "as item", key, where(b), "a mutable %s is turned into %s" % (name, show(v)[:80]))


def isref(t, adt):
    return t[0] == "ref" and t[1][:2] == ("adt", adt)


def pointers(p, rep, lookup):
    """accessors of the references between items: the getter looks up the handle the setter stores"""
    got = {}
    for b in p.bodies.values():
        if not (b.isfn and not b.trait and b.self_ty and b.self_ty[0] == "adt" and b.self_ty[1] != DR and b.vis == "pub"):
            continue
        if b.argc == 2 and isref(b.locals[2], DR) and b.locals[0][:2] == ("adt", "std::option::Option"):
            seen = []

            def hook(it, st, fr, args, info):
                seen.append((args[0], it.val(st, args[1])))
                return [(st, mk("sym", "found"))]
            it = Unroll(p, hooks={lookup: hook})
            st = State()
            st.store[("O", "self")] = mk("sym", "self")
            st.store[("O", "d")] = mk("sym", "d")
            try:
                res = it.run(b, args=[SELF, mk("ref", ("O", "d"), ())], st=st)
            except (Unsupported, Bound) as e:
                __import__("report").und("UNDECIDED %s: %s" % (b.name, str(e)[:120]))
                continue
            rep.functions |= it.analysed
            fld = {h for d, h in seen}
            own = [x[0] for x in p.adts[b.self_ty[1]]["variants"][0][2] if x[1] == ("adt", HANDLE)]
            hs = [n for n in own for h in fld if h is mk("fld", mk("sym", "self"), "", n)]
            rep.count("reference accessors")
            key = "%s::%s" % (b.self_ty[1].split("::")[-1], b.method)
            rep.check(len(fld) == 1 and len(hs) == 1 and all(d.op == "ref" and d.a[0] == ("O", "d") for d, h in seen), "reference", key, where(b), "looks up %s" % [show(h)[:60] for h in fld])
            if len(hs) == 1:
                got[(b.self_ty[1], b.method)] = hs[0]
                if isref_opt(b.locals[0], DI):
                    for s, v in res:
                        rep.check(it.val(s, v) is mk("sym", "found"), "reference", key + " result", where(b), "does not return the item found: %s" % show(v)[:80])
    for b in p.bodies.values():
        if not (b.isfn and not b.trait and b.self_ty and b.self_ty[0] == "adt" and b.vis == "pub" and b.argc == 3 and isref(b.locals[2], DIM) and isref(b.locals[3], DR)):
            continue
        name = b.method[4:] if b.method.startswith("set_") else b.method
        f = got.get((b.self_ty[1], name))
        for vi, (vn, t) in enumerate(variants(p, DIM)):
            it = Unroll(p)
            st = State()
            st.store[("O", "self")] = mk("sym", "self")
            st.store[("O", "d")] = mk("sym", "d")
            st.store[("O", "thing")] = mk("sym", "thing")
            st.store[("O", "item")] = mk("agg", DIM, vi, (mk("ref", ("O", "thing"), ()),))
            res = it.run(b, args=[SELF, mk("ref", ("O", "item"), ()), mk("ref", ("O", "d"), ())], st=st)
            rep.functions |= it.analysed
            rep.count("reference accessors")
            for s, v in res:
                me, th = s.store[("O", "self")], s.store[("O", "thing")]
                df = diff(mk("sym", "self"), me)
                key = "%s::%s %s" % (b.self_ty[1].split("::")[-1], b.method, vn)
                rep.check(len(df) == 1 and (f is None or pname(p, df[0][0]) == f), "reference", key, where(b), "sets %s" % [pname(p, z[0]) for z in df])
                if len(df) == 1:
                    def one(sc):
                        if sc.guard(s.pc):
                            rep.check(sc.red(df[0][2]) is sc.red(handle_of(p, th, t)), "reference", key + " value", where(b), "the handle stored is not the item's: %s" % show(df[0][2])[:100])
                    scen.explore(one)


def inner_is(b, adt):
    return isref_opt(b.locals[0], adt)


def isref_opt(t, adt):
    i = t[2]
    i = i[0] if i and isinstance(i[0], tuple) else i
    return i[:2] == ("adt", adt)


def run(p, rep):
    setup(p)
    rep.rule = ("abstract interpretation of the look-ups by handle on a drawing with symbolic items in all of its lists: on every path, what is returned is an item of the drawing, under its own kind, whose "
                "handle equals the one asked for, and nothing is returned only if every item's handle differs; the drawing is unchanged; handle access per kind of item")
    rep.assume += ["each list has 0, 1, 2 or 3 items"]
    for b in public(p, DR, lambda b: b.argc == 2 and b.locals[2] == ("adt", HANDLE) and b.locals[0][:2] == ("adt", "std::option::Option")):
        inner = b.locals[0][2]
        adt = inner[1] if isinstance(inner, tuple) and inner[0] == "adt" else inner[0][1]
        for label, sizes in (("2", lambda k: 2), ("0-3", lambda k: (k * 3 + 1) % 4), ("1", lambda k: 1), ("3-0", lambda k: (k + 2) % 4)):
            try:
                find(p, rep, b, variants(p, adt), sizes)
                rep.count("look-ups decided")
            except (Unsupported, Bound, scen.TooMany) as e:
                __import__("report").und("UNDECIDED %s: %s" % (b.method, str(e)[:200]))
                rep.count("undecided")
        if inner_is(b, DI):
            pointers(p, rep, b.key if hasattr(b, "key") else b.name)
    accessors(p, rep)
    rep.floor("look-ups decided", 4)
    rep.floor("accessors", 30)
