"""Every added item gets a handle of its own."""
import re
from dapi import *
import dapi

CHILD = re.compile(r"((common\.)?handle|specific\.__seqend_handle|specific\.\w+_and_handles\[\d+\]\.1|entities\[\d+\]\.common\.handle)(\.0)?")


def where(b):
    return "%s (%s)" % (b.name, b.span)


def offset(N, v):
    """v = N + k"""
    if v is N:
        return 0
    if v.op == "agg" and v.a[0] == HANDLE:
        return num(v.a[2][0], mk("fld", N, "", "0"))
    return None


def one(p, rep, b, f, t, name, item, kids, hooks=None):
    it, res = dapi.run(p, b, [item]) if hooks is None else dapi.load(p, b, hooks)
    h0 = getf(p, item, t, own_handle(p, t)) if hooks else None
    rep.functions |= it.analysed
    N = mk("fld", mk("fld", mk("sym", "self"), "", "header"), "", "next_available_handle")
    L = lists(p)
    n = [0]

    def case(a):
        n[0] += 1
        hs = []
        key = "%s(%s)" % (b.method, name)
        had = hooks is not None and not a.sc.holds(mk("eq", mk("fld", h0, "", "0"), kint("u64", 0)))
        if had:
            # loaded with a handle: everything about it is kept
            base, new = chain(a.field(f))
            rep.check(new and not diff(a.sc.red(item), new[-1]), "loaded", key + " with handle", where(b), "a record that has a handle is changed when loaded: %s" % (show(new[-1])[:160] if new else "not stored"))
            return
        # the item itself
        base, new = chain(a.field(f))
        if not rep.check(new and base is mk("fld", mk("sym", "self"), "", f), "stored", key, where(b), "the item is not appended to the drawing's %s, or the ones already there change: %s" % (f, show(a.field(f))[:200])):
            return
        got = new[-1]
        for path, x, y in diff(a.sc.red(item), got):
            nm = pname(p, path)
            if not CHILD.fullmatch(nm):
                rep.bad("stored", "%s %s" % (key, nm), where(b), "%s of the item is changed by adding it: %s" % (nm, show(y)[:120]))
        rep.check(hooks is not None or a.ret() is got, "returned", key, where(b), "the reference returned is not the item just added: %s" % show(a.ret())[:120])
        # every handle handed out
        for g, et in L.items():
            if own_handle(p, et) is None:
                continue
            bs, nw = chain(a.field(g))
            if g != f:
                rep.check(bs is mk("fld", mk("sym", "self"), "", g), "other lists", "%s %s" % (key, g), where(b), "adding the item changes the %s already present: %s" % (g, show(bs)[:120]))
            for e in nw:
                h = a.get(e, et, own_handle(p, et))
                k = offset(N, h)
                rep.check(k is not None, "fresh", "%s %s" % (key, g), where(b), "a new entry of %s has the handle %s, not one of its own" % (g, show(h)[:80]))
                hs.append(k)
        # child handles
        if t == "block::Block":
            for e in a.get(got, t, "entities").a[0]:
                h = a.get(e, ENT, "common.handle")
                k = offset(N, h)
                rep.check(k is not None, "fresh", key + " entity of the block", where(b), "an entity of the block has the handle %s, not one of its own" % show(h)[:80])
                hs.append(k)
        if kids:
            sp = a.sc.red(got).a[2][1]
            bt = p.adts[sp.a[0]]["variants"][sp.a[1]][2][0][1][1]
            for kf, lf in kids.items():
                if lf is None:
                    h = a.get(sp.a[2][0], bt, kf)
                    k = offset(N, h)
                    rep.check(k is not None, "fresh", "%s %s" % (key, kf), where(b), "%s is %s, not a handle of its own" % (kf, show(h)[:80]))
                    hs.append(k)
                    continue
                for i, e in enumerate(a.get(sp.a[2][0], bt, lf).a[0]):
                    h = a.sc.red(e.a[2][1])
                    given = mk("sym", "handle2")
                    if i == 1 and not a.sc.holds(mk("eq", AUTO, given)):
                        rep.check(h is given, "kept", "%s %s" % (key, lf), where(b), "a child that has a handle does not keep it")
                        continue
                    k = offset(N, h)
                    rep.check(k is not None, "fresh", "%s %s" % (key, lf), where(b), "child %d has the handle %s, not one of its own" % (i + 1, show(h)[:80]))
                    hs.append(k)
        hs = [k for k in hs if k is not None]
        rep.check(len(set(hs)) == len(hs), "distinct", key, where(b), "two items get the same handle: next + %s" % sorted(hs), sample="%s: next + %s" % (key, sorted(hs)))
        nx = a.get(a.field("header"), "header::Header" if "header::Header" in p.adts else HDR(p), "next_available_handle")
        k = offset(N, nx)
        rep.check(k is not None and all(x < k for x in hs), "next handle", key, where(b), "afterwards the next handle is %s although next + %s have been given out" % (show(nx)[:80], sorted(hs)))
        # nothing else of the drawing changes
        for path, x, y in diff(mk("fld", mk("sym", "self"), "", "header"), a.field("header")):
            rep.check(pname(p, path) == "next_available_handle", "header", "%s %s" % (key, pname(p, path)), where(b), "adding an item changes header.%s" % pname(p, path))
        for x in dfields(p):
            if x[0] not in L and x[0] != "header":
                rep.check(a.field(x[0]) is mk("fld", mk("sym", "self"), "", x[0]), "rest", "%s %s" % (key, x[0]), where(b), "adding an item changes %s" % x[0])
    cases(p, it, res, case)
    rep.count("cases", n[0])
    if not n[0]:
        raise Unsupported("%s never returns" % b.name)


def HDR(p):
    return [x[1][1] for x in dfields(p) if x[0] == "header"][0]


def allocator(p, rep):
    """Handle's arithmetic and the two functions that hand handles out"""
    it = Interp(p)
    h = mk("sym", "h")
    b = method(p, HANDLE, "next_handle_value")
    for s, v in it.run(b, args=[h]):
        rep.check(offset(h, v) == 1, "allocator", b.method, where(b), "the handle after h is %s" % show(v)[:80])
    b = method(p, HANDLE, "is_empty")
    for s, v in it.run(b, args=[h]):
        rep.check(v is it.cmp("Eq", mk("fld", h, "", "0"), kint("u64", 0), True, s), "allocator", b.method, where(b), "emptiness of a handle is %s" % show(v)[:80])
    b = method(p, HANDLE, "empty")
    for s, v in it.run(b, args=[]):
        rep.check(v is EMPTYH, "allocator", b.method, where(b), "the empty handle is %s" % show(v)[:80])
    rep.functions |= it.analysed


def assign(p, rep):
    """assign_and_get_handle: keeps a handle that is there, otherwise gives out the next one"""
    bs = [b for b in p.bodies.values() if b.isfn and b.self_ty == ("adt", DR) and b.argc == 2 and b.locals[0] == ("adt", HANDLE) and b.locals[2][0] == "ref" and b.locals[2][1][:2] == ("adt", "drawing_item::DrawingItemMut")]
    N = mk("fld", mk("fld", mk("sym", "self"), "", "header"), "", "next_available_handle")
    for b in bs:
        DM = "drawing_item::DrawingItemMut"
        for vi, v in enumerate(p.adts[DM]["variants"]):
            t = v[2][0][1][1][1]
            it = Unroll(p)
            st = State()
            st.store[("O", "self")] = mk("sym", "self")
            st.store[("O", "thing")] = mk("sym", "thing")
            st.store[("O", "item")] = mk("agg", DM, vi, (mk("ref", ("O", "thing"), ()),))
            res = it.run(b, args=[SELF, mk("ref", ("O", "item"), ())], st=st)
            rep.functions |= it.analysed
            h0 = getf(p, mk("sym", "thing"), t, own_handle(p, t))

            def case(a):
                had = not a.sc.holds(mk("eq", mk("fld", h0, "", "0"), kint("u64", 0)))
                now = a.get(a.s.store[("O", "thing")], t, own_handle(p, t))
                nx = a.get(a.field("header"), HDR(p), "next_available_handle")
                key = "%s(%s) %s" % (b.method, v[0], "with handle" if had else "without")
                if had:
                    rep.check(now is h0 and a.ret() is h0 and offset(N, nx) == 0, "assign", key, where(b), "an item that has a handle gets %s, %s is returned" % (show(now)[:60], show(a.ret())[:60]))
                else:
                    k = offset(N, now)
                    rep.check(k is not None and a.ret() is now and offset(N, nx) is not None and offset(N, nx) > k, "assign", key, where(b),
                              "an item without handle gets %s, %s is returned, the next one will be %s" % (show(now)[:60], show(a.ret())[:60], show(nx)[:60]))
            cases(p, it, res, case)
    if not bs:
        __import__("report").und("UNDECIDED assign_and_get_handle")
        rep.count("undecided")


def run(p, rep):
    setup(p)
    rep.rule = ("abstract interpretation of every public add operation of Drawing on a symbolic drawing and a symbolic item, per entity and object type, with case analysis over which referenced "
                "entries already exist: the item is appended unchanged but for its handles, every handle handed out in the operation (the item's, its children's, the ones of entries added on "
                "the way) is next_available_handle + k with pairwise different k, and next_available_handle ends above all of them; handles of children that have one are kept; nothing else changes")
    rep.assume += ["handles do not overflow 64 bits", "lists inside an added item have the lengths 2 (blocks, layer names) and 3 (attributes, vertices)"]
    A = adders(p)
    for f, bs in A.items():
        for b in bs:
            for name, item, kids in items(p, f, lists(p)[f]):
                try:
                    one(p, rep, b, f, lists(p)[f], name, item, kids)
                    rep.count("operations decided")
                except (Unsupported, Bound, scen.TooMany) as e:
                    __import__("report").und("UNDECIDED %s(%s): %s" % (b.method, name, str(e)[:160]))
                    rep.count("undecided")
    for f, (b, hooks) in loaders(p).items():
        for name, item, kids in items(p, f, lists(p)[f]):
            try:
                one(p, rep, b, f, lists(p)[f], name, item, kids, hooks(item))
                rep.count("records loaded")
            except (Unsupported, Bound, scen.TooMany) as e:
                __import__("report").und("UNDECIDED %s(%s): %s" % (b.method, name, str(e)[:160]))
                rep.count("undecided")
    allocator(p, rep)
    assign(p, rep)
    rep.floor("records loaded", 40)
    rep.floor("operations decided", 60)
