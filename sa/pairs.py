"""From pairs to bytes and back: the crate's own save and load entry points, with the list of pairs given (symbolic values)
in place of the drawing's content and the pair stream handed to the section readers read to its end."""
from codec import *
import rt

CPV, CP, DR = "code_pair_value::CodePairValue", "code_pair::CodePair", "drawing::Drawing"
KINDS = {"Boolean": "i16", "Integer": "i32", "Long": "i64", "Short": "i16", "Double": "f64", "Str": None, "Binary": None}


def agg(p, adt, **kw):
    fs = p.adts[adt]["variants"][0][2]
    return mk("agg", adt, 0, tuple(kw.get(f[0], mk("sym", "?" + f[0])) for f in fs))


def pair(p, code, kind, val):
    names = [v[0] for v in p.adts[CPV]["variants"]]
    return agg(p, CP, code=kint("i32", code), value=mk("agg", CPV, names.index(kind), (val,)), offset=kint("usize", 0))


def parts(p, v):
    """(code term, kind name, value term) of a pair"""
    fs = [f[0] for f in p.adts[CP]["variants"][0][2]]
    code, val = v.a[2][fs.index("code")], v.a[2][fs.index("value")]
    if val.op != "agg" or len(val.a[2]) != 1:
        return code, "?", val
    return code, p.adts[CPV]["variants"][val.a[1]][0], val.a[2][0]


def public(p, name):
    return rt.method(p, DR, name)


def pairs_fn(p):
    r = [b for b in p.bodies.values() if b.isfn and b.argc == 1 and b.locals[1][:1] == ("ref",) and b.locals[1][1][:2] == ("adt", DR) and
         "CodePair" in str(b.locals[0]) and "Vec" in str(b.locals[0])]
    if len(r) != 1:
        raise Undef("the function giving a drawing's pairs is not identified")
    return r[0]


def iter_fn(p):
    r = [b for b in p.bodies.values() if b.isfn and b.argc == 1 and "CodePairIter" in str(b.locals[1]) and "Box" in str(b.locals[1]) and "'drawing::Drawing'" in str(b.locals[0])]
    if len(r) != 1:
        raise Undef("the function reading a drawing from a pair stream is not identified")
    return r[0]


def version(p, v):
    return mk("agg", "enums::AcadVersion", rt.versions(p).index(v), ())


def save(p, pairs, ver, text, used=None):
    """[(pc, bytes, result)]"""
    f = pairs_fn(p)
    it = Codec(p, hooks={f.key: lambda it, st, fr, a, i: [(st, ok(mk("vec", tuple(pairs))))]})
    it.events_off = True
    st = State()
    st.store[it.OUT] = mk("vec", ())
    hdr = agg(p, "generated::header::Header", version=version(p, ver))
    st.store[("O", "self")] = agg(p, DR, header=hdr)
    r = it.run(public(p, "save" if text else "save_binary"), args=[mk("ref", ("O", "self"), ()), mk("ref", ("O", "$w"), ())], st=st)
    if used is not None:
        used |= it.analysed
    return [(s2.pc, o.a[0], it.val(s2, v)) for s, v in r for s2, o in it.split(s, s.store[it.OUT])]


def load(p, bs, pc=1, utf8_after=None, used=None, limit=12, entry="load", extra=()):
    """[(pc, [pairs], end)]: end is "end", ("error", term) or ("other", term) when the file is not read as a pair stream"""
    f = iter_fn(p)
    got = []

    def hook(it, st, fr, a, i):
        box = a[0]
        v = it.val(st, box)
        while v.op == "agg" and v.a[0].endswith(("Box", "Unique", "NonNull")):
            box = v.a[2][0]
            v = it.val(st, box)
        if v.op != "agg":
            raise Undef("pair stream %s" % show(v)[:100])
        if box.op != "ref":
            st.store[("O", "$iter")] = v
            box = mk("ref", ("O", "$iter"), ())
        work = [(st, [])]
        while work:
            s, xs = work.pop()
            it.iters = it.iters[:0] + (len(xs),)
            if utf8_after is not None and len(xs) == utf8_after:
                b = next(b for b in p.bodies.values() if b.method == "read_as_utf8" and b.trait and b.self_ty and b.self_ty[:2] == ("adt", v.a[0]))
                (s, _), = it.inline(s, fr, ("u", i["bb"], len(xs)), b, [box], {}, i["span"])
            nb = [b for b in p.bodies.values() if b.method == "next" and b.trait and b.trait.endswith("Iterator") and b.self_ty and b.self_ty[:2] == ("adt", v.a[0])]
            for s1, r in it.inline(s, fr, ("n", i["bb"], len(xs)), nb[0], [box], {}, i["span"]):
                for s2, x in it.split(s1, it.val(s1, r)):
                    if x is NONE or x.op == "agg" and x.a[0] == OPTION and x.a[1] == 0:
                        got.append((s2.pc, xs, "end" if s2.store[it.POS].a[1] == len(s2.store[it.IN].a[0]) else "stops early"))
                        continue
                    for s3, y in it.split(s2, x.a[2][0] if x.op == "agg" and x.a[0] == OPTION else mk("bad", x)):
                        if y.op == "agg" and y.a[0] == RESULT and y.a[1] == 0:
                            for s4, z in it.split(s3, it.val(s3, y.a[2][0])):
                                if len(xs) < limit:
                                    work.append((s4, xs + [z]))
                                else:
                                    got.append((s4.pc, xs, "does not end"))
                        elif y.op == "agg" and y.a[0] == RESULT:
                            got.append((s3.pc, xs, ("error", y.a[2][0])))
                        else:
                            raise Undef("pair stream item %s" % show(y)[:120])
        return [(st, ok(mk("sym", "$drawing")))]
    it = Codec(p, hooks={f.key: hook})
    it.models["std::io::Cursor::<T>::new"] = it.cursor
    it.events_off = True
    st = State()
    st.pc = pc
    st.store[it.IN] = mk("vec", tuple(bs))
    st.store[it.POS] = kint("usize", 0)
    r = it.run(public(p, entry), args=[mk("ref", ("O", "$r"), ())] + list(extra), st=st)
    if used is not None:
        used |= it.analysed
    for s, v in r:
        for s2, x in it.split(s, it.val(s, v)):
            if x.op == "agg" and x.a[0] == RESULT and x.a[1] == 1:
                got.append((s2.pc, [], ("error", x.a[2][0])))
            elif not (x.op == "agg" and x.a[0] == RESULT and x.a[2][0] is mk("sym", "$drawing")):
                got.append((s2.pc, [], ("other", x)))
    return got


def same(a, b, text):
    if a is b:
        return True
    if a.op == "rounded" and text:
        return a.a[0] is b and a.a[1] >= 12
    if is_k(a) and is_k(b) and a.a[0] == b.a[0] == "f64":
        x, y = fval(a), fval(b)
        return x == y or (x != x and y != y)
    return False


def trip(p, xs, ver, text, used=None, ascii_only=False):
    """None when the pairs come back, else what went wrong"""
    ps = [pair(p, *x) for x in xs]
    utf8 = 1 if rt.versions(p).index(ver) >= rt.versions(p).index("R2007") else None
    for pc, bs, ret in save(p, ps, ver, text, used):
        if not (ret.op == "agg" and ret.a[0] == RESULT and ret.a[1] == 0):
            return "saving fails"
        if ascii_only:
            for b in bs:
                r = cls(b)
                if r is None or max(h for _, h in r) > 0x7F:
                    return "a byte above 127 is written"
        for pc2, got, end in load(p, bs, pc, utf8, used):
            for k, (x, y) in enumerate(zip(xs, got)):
                code, kind, v = parts(p, y)
                if not is_k(code) or code.a[1] != x[0]:
                    return "code %d is read back as code %s" % (x[0], show(code))
                if kind != x[1]:
                    return "a %s is read back as %s" % (x[1], kind)
                if not same(v, x[2], text):
                    return "the value %s is read back as %s" % (show(x[2])[:80], show(v)[:160])
            if len(got) != len(xs) or end != "end":
                return "%d pairs written, %d read, then %s" % (len(xs), len(got), end if isinstance(end, str) else "an " + end[0] + " " + show(end[1])[:80])
    return None
