"""Write-then-read verdicts for x data and extension groups (the parts that records.py takes as opaque)."""
from rtrip import *
import rt

XD, XI = "x_data::XData", "x_data::XDataItem"
EG, EI = "extension_data::ExtensionGroup", "extension_data::ExtensionGroupItem"


class Writer(Feed):
    """the abstract interpreter with the loop rule on appended lists and strings, for writers"""
    def __init__(self, p, opaque=lambda b: False, hooks=None):
        Interp.__init__(self, p, opaque, dict(hooks or {}))
        self.deadline = time.time() + 120

    site = Interp.site

    def run_loop(self, fr, h, sts, outer):
        return self.plain_loop(fr, h, sts, outer)

    def leaves(self, e, v, w, lid, C, ix, m):
        if v.op == "loop" and v.a[0] is lid and e is not None and w.op == "concat" and w.a[0] is v and not any(x is v for x in walk(w.a[1])):
            m[v] = mk("catmap", e, C, w.a[1], ix)
            return
        return Feed.leaves(self, e, v, w, lid, C, ix, m)


def hexline(s):
    """the byte list whose two-digit hexadecimal text s is, or None"""
    if s.op != "catmap" or s.a[0] is not kstr(""):
        return None
    C, f, ix = s.a[1:]
    if f.op != "format" or f.a[0].op != "fmtargs":
        return None
    tpl, xs = f.a[0].a[0], f.a[0].a[1]
    if xs.op != "vec" or len(xs.a[0]) != 1 or xs.a[0][0].op != "fmtarg" or xs.a[0][0].a[0] not in ("upper_hex", "lower_hex"):
        return None
    if xs.a[0][0].a[1] is not mk("idx", C, ix):
        return None
    b = tpl.a[1] if tpl.op == "k" else None
    if not isinstance(b, (tuple, bytes)) or len(b) != 8 or b[0] != 0xC3:
        return None
    flags, width = int.from_bytes(bytes(b[1:5]), "little"), int.from_bytes(bytes(b[5:7]), "little")
    return C if (flags >> 24) & 1 and width == 2 else None


def h_parse_hex(it, st, fr, args, info):
    s = it.val(st, args[0])
    while s.op in ("trim", "to_string"):
        s = s.a[0]
    C = hexline(s)
    if C is None:
        return None
    loc, path = it.deref(st, args[1])
    if it.read_path(st, loc, path) is not EMPTY:
        return None
    it.write(st, fr, loc, path, C, info["span"], event=False)
    return [(st, ok(UNIT))]


def one_fn(p, pred, what):
    r = [b for b in p.bodies.values() if b.isfn and pred(b)]
    if len(r) != 1:
        raise Unsupported("%s: %d candidates" % (what, len(r)))
    return r[0]


def returns(b, adt):
    t = b.locals[0]
    return t[0] == "adt" and t[1] == RESULT and t[2][:2] == ("adt", adt)


def takes(b, adt):
    return any(b.locals[i][0] == "ref" and b.locals[i][1][:2] == ("adt", adt) for i in range(1, b.argc + 1))


def item_reader(p):
    return one_fn(p, lambda b: returns(b, XI) and takes(b, CP), "reader of an x data item")


def h_item(it, st, fr, args, info):
    pr = it.val(st, args[0])
    if pr.op == "agg" and pr.a[0] == CP and pr.a[2][0].op == "xcode":
        return [(st, ok(pr.a[2][0].a[0]))]
    return None


class XFeed(RecFeed):
    def sub_pair(self, i):
        x = i[3][0]
        t = i[4]["atys"][0] if len(i) > 4 else None
        if t is not None and mentions(t, XI):
            return mk("agg", CP, 0, (mk("xcode", x), mk("agg", CPV, self.p.variant_ix(CPV, "Str"), (mk("xval", x),)), kint("usize", 0)))
        if t is not None and mentions(t, EG):
            return mkpair(self.p, 102, mk("concat", kstr("{"), mk("extname", x)))
        return super().sub_pair(i)

    def premise(self, pair):
        if pair is not None and pair.op == "agg" and pair.a[0] == CP and pair.a[2][0].op == "xcode":
            c = pair.a[2][0]
            g = B.NOT(B.var(mk("lt", c, kint("i32", 1000))))
            for k in (0, 1001):
                g = B.AND(g, B.NOT(B.var(mk("eq", c, kint("d", k)))))
            # an item never starts with the pair that ends a control group
            return B.AND(g, B.NOT(B.AND(B.var(mk("eq", c, kint("d", 1002))), B.var(mk("eq", mk("xval", c.a[0]), kstr("}"))))))
        if pair is not None and pair_code(pair) is None:
            c = pair.a[2][0] if pair.op == "agg" else mk("fld", pair, "", "code")
            return B.NOT(B.var(mk("eq", c, kint("d", 102))))
        return super().premise(pair)


def writer(p, body, self_, vsym=None):
    w = Writer(p, opaque=lambda b: b.key != body.key and b.method == "add_code_pairs", hooks=HW)
    st = State()
    st.store[("O", "self")] = self_
    w.run(body, st=st)
    return w, tree(w)


def spread(items):
    """loops over a whole-list slice are loops over the list"""
    out = []
    for i in items:
        if i[0] == "loop" and i[2] is not None and i[2].op == "slice" and show(i[2].a[1]).startswith("RangeFull"):
            C, C2, ix = i[2], i[2].a[0], i[3]
            sub = spread(i[4])
            m = {mk("idx", C, ix): mk("idx", C2, ix)}
            out.append(("loop", i[1], C2, ix, unroll(sub, m)))
        elif i[0] == "loop":
            out.append(i[:4] + (spread(i[4]),))
        else:
            out.append(i)
    return out


def hooks(p):
    hk = dict(HR)
    del hk["x_data::XData::read_item"], hk["extension_data::ExtensionGroup::read_group"]
    b = item_reader(p)
    hk[b.key] = hk[b.name] = h_item
    b = one_fn(p, lambda b: b.name.endswith("::parse_hex_string"), "parse_hex_string")
    hk[b.key] = hk[b.name] = h_parse_hex
    return hk


def strarg(b):
    for i in range(1, b.argc + 1):
        t = b.locals[i]
        if t == ("adt", "std::string::String") or t[:2] == ("adt", "std::string::String"):
            return i
    raise Unsupported("%s takes no name" % b.name)


def run_reader(p, rd, items, name, tail, unwrap, lens=None):
    """rd(name, iter) over items"""
    return trip1(p, rd, items, None, {}, unwrap, feed=XFeed, hooks=hooks(p), tail=tail, lens=lens, args={strarg(rd) - 1: name})


def item(p, vix):
    """one x data item between the application name and another item"""
    v = p.adts[XI]["variants"][vix]
    orig = mk("agg", XI, vix, tuple(mk("sym", "it%d" % i) for i in range(len(v[2]))))
    w, items = writer(p, method(p, XI, "add_code_pairs"), orig)
    items = spread(items)
    nxt = mk("sym", "next")
    items.append(("sub", 1, "x_data::XDataItem::add_code_pairs", (nxt,), dict(atys=[("ref", ("adt", XI))])))
    rd = one_fn(p, lambda b: returns(b, XD), "reader of x data")
    out = {}
    for tn, tail in (("a record", mkpair(p, 0, kstr("LINE"))), ("more x data", mkpair(p, 1001, mk("sym", "app2"))), ("plain data", mkpair(p, 290, TRUE, "Boolean"))):
        def unwrap(fd, s, x, c):
            l = fd.val(s, fd.get_field(x, XD, None, 1))
            if l.op != "vec" or len(l.a[0]) != 2:
                return "lost: %s items come back for 2" % (len(l.a[0]) if l.op == "vec" else show(l)[:100])
            if l.a[0][1] is not nxt:
                return "lost: the item that follows does not come back"
            c.same(l.a[0][0], orig, s.pc, "")
            if fd.pos(s) != fd.endpos:
                return "stops: the reader stops at pair %d of %d" % (fd.pos(s), fd.endpos)
        out[tn] = run_reader(p, rd, items, mk("sym", "app"), [tail], unwrap)
    return w, out


def whole(p):
    """{version: trip} of one XData: name and item list"""
    orig = mk("agg", XD, 0, (mk("sym", "app"), mk("sym", "items")))
    w, items = writer(p, method(p, XD, "add_code_pairs"), orig)
    rd = one_fn(p, lambda b: returns(b, XD), "reader of x data")
    out = []
    for vi, vn in enumerate(versions(p)):
        its = restrict(spread(items), at_version(VS, vi))
        if not its:
            out.append((vn, None))
            continue
        if its[0][0] != "pair" or its[0][1] != 1 or pair_code(its[0][2]) != 1001 or its[0][2].a[2][1].a[2][0] is not mk("sym", "app"):
            out.append((vn, dict(notes=["framing: x data does not start with 1001 and the application name"], verdicts={}, fns=[])))
            continue

        def unwrap(fd, s, x, c):
            c.same(x, orig, s.pc, "")
            return None if fd.pos(s) == fd.endpos else "stops: the reader stops at pair %d of %d" % (fd.pos(s), fd.endpos)
        out.append((vn, run_reader(p, rd, its[1:], mk("sym", "app"), [mkpair(p, 1001, mk("sym", "app2"))], unwrap)))
    return w, out


def group(p):
    orig = mk("agg", EG, 0, (mk("sym", "app"), mk("sym", "items")))
    w, items = writer(p, method(p, EG, "add_code_pairs"), orig)
    rd = one_fn(p, lambda b: returns(b, EG), "reader of extension groups")
    first, rest = items[0] if items else None, items[1:]
    if first is None or first[0] != "pair" or pair_code(first[2]) != 102:
        return w, dict(notes=["framing: a group does not start with 102"], verdicts={}, fns=[])
    lst = mk("sym", "items")
    nonempty = B.NOT(B.var(mk("eq", mk("len", lst), kint("d", 0))))
    if B.AND(nonempty, B.NOT(first[1])):
        return w, dict(notes=["lost: a group with items is not always written"], verdicts={}, fns=[])

    def unwrap(fd, s, x, c):
        c.same(x, orig, s.pc, "")
        return None if fd.pos(s) == fd.endpos else "stops: the reader stops at pair %d of %d" % (fd.pos(s), fd.endpos)
    rest = restrict(rest, lambda a: {1: True, -1: False}.get(empty_atom(a, lst)))
    hk = hooks(p)
    hk[rd.key] = hk[rd.name] = h_group(rd)
    return w, trip1(p, rd, rest, None, {}, unwrap, feed=XFeed, hooks=hk, tail=[mkpair(p, 100, kstr("AcDbSomething"))], args={strarg(rd) - 1: payload1(first[2])})


def payload1(pr):
    return pr.a[2][1].a[2][0]


def h_group(rd):
    k = strarg(rd) - 1

    def h(it, st, fr, args, info):
        n = it.val(st, args[k])
        if n.op == "concat" and n.a[1].op == "extname":
            return [(st, ok(n.a[1].a[0]))]
        return None
    return h
