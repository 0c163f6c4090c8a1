"""Removing, clearing and listing."""
from dapi import *
import dapi
OPTION = "std::option::Option"


def where(b):
    return "%s (%s)" % (b.name, b.span)


def drawing(p, n):
    d = mk("sym", "self")
    el = {}
    for f, t in lists(p).items():
        el[f] = tuple(mk("sym", "%s[%d]" % (f.strip("_"), i)) for i in range(n))
        d = setf(p, d, DR, f, mk("vec", el[f]))
    return d, el


def remove(p, rep):
    L = lists(p)
    for f, t in L.items():
        for b in public(p, DR, lambda b: b.argc == 2 and b.locals[2] == ("prim", "usize") or b.argc == 2 and b.locals[2] in ("usize", ("usize",)) or b.argc == 2 and "usize" in repr(b.locals[2])):
            rt = b.locals[0]
            if rt[:2] != ("adt", OPTION) or ("adt", t) not in (rt[2][0] if isinstance(rt[2][0], tuple) else rt[2], rt[2], rt[2][1:] and rt[2][1]) and repr(("adt", t)) not in repr(rt):
                continue
            for n in (0, 1, 2, 3):
                d, el = drawing(p, n)
                for i in (0, 1, 2, 3, 4, 2**64 - 1):
                    it, res = dapi.run(p, b, [kint("usize", i)], drawing=d)
                    rep.functions |= it.analysed
                    key = "%s(%s) of %d" % (b.method, i if i < 5 else "huge", n)
                    k = 0
                    for s, v in res:
                        if not s.pc:
                            continue
                        k += 1
                        v = it.val(s, v)
                        now = s.store[("O", "self")]
                        exp = setf(p, d, DR, f, mk("vec", el[f][:i] + el[f][i + 1:])) if i < n else d
                        want = some(el[f][i]) if i < n else NONE
                        df = diff(exp, now)
                        if any(z[2].op not in ("vec", "sym", "fld", "agg", "k", "rec") for z in df) or v.op not in ("agg", "sym"):
                            raise Unsupported("%s: not followed: %s, %s" % (key, [show(z[2])[:60] for z in df], show(v)[:60]))
                        df = [pname(p, z[0]) for z in df]
                        rep.check(not df, "removed", key, where(b), "%s of the drawing differ(s) from what is left when item %s is taken out" % (df, i))
                        rep.check(v is want, "returned", key, where(b), "returns %s instead of %s" % (show(v)[:60], show(want)[:60]), sample=key)
                    rep.check(k, "returns", key, where(b), "does not return: a panic for an index %s the end" % ("before" if i < n else "past"))
                    rep.count("removals")


def clear(p, rep):
    L = lists(p)
    for b in public(p, DR, lambda b: b.argc == 1 and b.method == "clear"):
        for sym in (True, False):
            d, el = drawing(p, 2)
            d = mk("sym", "self") if sym else d
            it, res = dapi.run(p, b, [], drawing=d)
            rep.functions |= it.analysed
            for s, v in res:
                now = s.store[("O", "self")]
                for x in dfields(p):
                    f = x[0]
                    y = Interp(p).get_field(now, DR, None, fnum(p, DR, f))
                    key = "clear %s" % f.strip("_")
                    if f in L:
                        rep.check(y.op == "vec" and not y.a[0], "cleared", key, where(b), "%s is not empty afterwards: %s" % (f.strip("_"), show(y)[:80]), sample=key)
                    elif x[1][:2] == ("adt", OPTION):
                        rep.check(y is NONE, "cleared", key, where(b), "%s is kept" % f)
                    elif f == "header":
                        df = diff(mk("fld", mk("sym", "self"), "", "header"), y)
                        rest = [pname(p, z[0]) for z in df if pname(p, z[0]) != "next_available_handle"]
                        rep.check(not rest, "header kept", key, where(b), "clearing changes header.%s" % rest)
                        h = getf(p, y, x[1][1], "next_available_handle")
                        rep.check(h.op == "agg" and is_k(h.a[2][0]) and h.a[2][0].a[1] >= 1, "first handle", key, where(b), "the next handle after clearing is %s" % show(h)[:60])
            rep.count("clear")


def listing(p, rep):
    L = lists(p)
    for f, t in L.items():
        for b in public(p, DR, lambda b: b.argc == 1 and b.method in (f.strip("_"), f.strip("_") + "_mut")):
            for n in (0, 1, 3):
                d, el = drawing(p, n)
                it, res = dapi.run(p, b, [], drawing=d)
                rep.functions |= it.analysed
                for s, v in res:
                    rep.check(s.store[("O", "self")] is d, "listing only", b.method, where(b), "listing changes the drawing")
                    got = []
                    fr = type("F", (), {})()
                    fr.body, fr.ctx, fr.subst = b, (), {}
                    work = [(s.copy(), v)]
                    while work:
                        s1, iv = work.pop()
                        r = it.unext(s1, fr, {"bb": 0, "span": b.span}, iv)
                        if r is None:
                            raise Unsupported("%s: what it returns is not followed: %s" % (b.method, show(iv)[:80]))
                        if len(r) != 1:
                            raise Unsupported("%s: cases" % b.method)
                        s2, e, nv = r[0]
                        if e is None:
                            break
                        got.append(e)
                        work.append((s2, nv))
                    own = [e.op == "ref" and e.a[0] == ("O", "self") and it.read_path(s, *e.a) is x for e, x in zip(got, el[f])]
                    rep.check(len(got) == n and all(own), "listed", "%s of %d" % (b.method, n), where(b), "lists %s" % [show(e)[:60] for e in got], sample="%s of %d" % (b.method, n))
                rep.count("listings")


def run(p, rep):
    setup(p)
    rep.rule = ("abstract interpretation of remove_*, clear and the listing methods of Drawing on drawings with symbolic items: removing takes out and returns exactly the item at that position and "
                "nothing when there is none; clearing empties every list and the thumbnail, restarts the handles and keeps the header; listing gives every item of its own list once, in order")
    rep.assume += ["lists have 0 to 3 items"]
    for g in (remove, clear, listing):
        try:
            g(p, rep)
        except (Unsupported, Bound) as e:
            __import__("report").und("UNDECIDED %s: %s" % (g.__name__, str(e)[:160]))
            rep.count("undecided")
    rep.floor("removals", 150)
    rep.floor("listings", 36)
    rep.floor("clear", 1)
