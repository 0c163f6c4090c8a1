"""A file that ends or breaks off inside a section is an error, never a shorter drawing."""
import report
from unknown import *
import rtrip
from rules import c29
from par import pmap

BROKEN = mk("sym", "the failure")
FAILED = mk("sym", "a failure inside the record")


class Cut(SecFeed):
    """before every pair inside a section the input may end (mode "end") or fail (mode "error"); afterwards there is nothing more"""
    mode = "end"
    first, last = 1, 0          # the input may break before pairs first .. last

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.over = len(self.flat) + 1
        self.cuts = set()

    def broken(self, st):
        s = st.copy()
        self.setpos(s, self.over)
        s.store[("O", "$peek")] = s.store[("O", "$enter")] = FALSE
        s.store[("O", "$lastpair")] = UNINIT
        return s

    def breaks(self, st):
        p = self.pos(st)
        if not self.first <= p <= self.last:
            return False
        self.cuts.add(p)
        return True

    def h_next(self, it, st, fr, args, info):
        p = self.pos(st)
        if p == self.over:
            return [(st, NONE)]
        c = st.copy()
        out = SecFeed.h_next(self, it, st, fr, args, info)
        if out is not None and p >= 0 and self.breaks(c):
            out.append((self.broken(c), NONE if self.mode == "end" else some(err(BROKEN))))
        return out

    def h_put(self, it, st, fr, args, info):
        if self.pos(st) == self.over:
            raise Unsupported("a pair is put back after the end of the input in %s" % fr.body.name)
        return super().h_put(it, st, fr, args, info)


CUTREC = mk("sym", "cut record")
BACK = ("O", "$cutback")


def ended(it, st, inside):
    """what a record reader may return when the input ends or fails (inside the record, or before it)"""
    if inside and it.mode == "error":
        return [(st, err(BROKEN))]
    out = [(st.copy(), err(FAILED)), (st.copy(), ok(NONE))]
    if inside:
        s = st.copy()
        s.store[("O", "$rec")] = CUTREC
        out.append((s, ok(some(CUTREC))))
    return out


def h_back(it, st, fr, args, info):
    if it.pos(st) != it.over:
        return h_pb_put(it, st, fr, args, info)
    x = it.val(st, args[1])
    if not (x.op == "agg" and x.a[0] == RESULT):
        raise Unsupported("put_back after the end of the input in %s" % fr.body.name)
    if st.store.get(BACK, UNINIT) is not UNINIT:
        raise Unsupported("two records put back in %s" % fr.body.name)
    st.store[BACK] = x
    return [(st, UNIT)]


def h_record(op):
    def h(it, st, fr, args, info):
        if it.pos(st) == it.over:
            x = st.store.get(BACK, UNINIT)
            out = []
            for g, v in x.a[0] if x.op == "phi" else ((1, x),):
                s = st.copy()
                s.pc = B.AND(s.pc, g)
                s.store[BACK] = UNINIT
                if not s.pc:
                    continue
                if v is UNINIT:
                    out += ended(it, s, False)
                else:
                    out.append((s, ok(some(v.a[2][0])) if v.a[1] == 0 else v))
            return out
        st.store[("O", "$recpos")] = kint("pos", it.pos(st))
        st.store[("O", "$rec")] = UNINIT
        out = ended(it, it.broken(st), True) if it.breaks(st) else []
        for s, r in SecFeed.h_next(it, it, st, fr, args, info):
            pr = s.store[("O", "$lastpair")]
            v = recordname(pr) if r is not NONE else None
            if v is not None and v.op == op:
                s.store[("O", "$rec")] = v.a[0]
                out.append((s, ok(some(v.a[0]))))
            elif r is not NONE and payload_of(pr) in (kstr("ENDSEC"), kstr("ENDBLK")):
                s.store[POS] = s.store[("O", "$last")]
                s.store[("O", "$peek")] = FALSE
                out.append((s, ok(NONE)))
            else:
                raise Unsupported("the record reader is handed %s" % (show(pr)[:80] if r is not NONE else "the end of the input"))
        return out
    return h


def hooks(p):
    hk = sec_hooks(p)
    for op, adt in ((ENTNAME, ENT), (OBJNAME, OBJ)):
        b = method(p, adt, "read")
        hk[b.name] = hk[b.key] = h_record(op)
    hk["itertools::PutBack::<I>::put_back"] = h_back
    hk["enums::AcadVersion::from"] = rtrip.h_version_from
    for b in p.bodies.values():
        if b.name.endswith("CodePairPutBack::read_as_utf8"):
            hk[b.name] = rtrip.h_unit
    return hk


def sections(p):
    """{name: pairs of a section, lists of one record} in the newest version"""
    vi = len(versions(p)) - 1
    orig = mk("sym", "it")
    out = {}

    def one(items, vs):
        f = at_version(vs, vi)
        lens = {}
        its = bounded(restrict(items, lambda a: True if a is WH else f(a)), 1, lens)
        return restrict(its, at_length(lens))
    vs = mk("fld", mk("fld", orig, "", "header"), "", "version")
    for n, (w, f, adt) in SECTIONS.items():
        out[n] = one(emission(p, w)[1], vs)
    st = State()
    st.store[("O", "self")] = orig
    it, items, _ = emit(p, method(p, DR, "add_tables_pairs"), st=st, opaque=opaque_parts, hooks=HW, posint=layer_color)
    tabs = one(items, vs)
    sec, end = [pr(p, 0, kstr("SECTION"))], [pr(p, 0, kstr("ENDSEC"))]
    for nm, part in rtrip.split(p, tabs, "TABLE", "ENDTAB"):
        out["TABLES with %s" % nm] = sec + [pr(p, 2, kstr("TABLES"))] + part + end
    st = State()
    st.store[("O", "self")] = orig
    it, items, _ = emit(p, method(p, HDR, "add_code_pairs_internal"), st=st, opaque=opaque_parts, hooks=HW)
    out["HEADER"] = sec + [pr(p, 2, kstr("HEADER"))] + one(items, mk("fld", orig, "", "version")) + end
    out["an unknown section"] = sec + [pr(p, 2, kstr("ACDSDATA")), upair(p), pr(p, 0, kstr("ACDSSCHEMA")), upair(p)] + end
    out["TABLES with an unknown table"] = sec + [pr(p, 2, kstr("TABLES")), pr(p, 0, kstr("TABLE")), pr(p, 2, kstr("XYZ")), upair(p), pr(p, 0, kstr("XYZ")), upair(p), pr(p, 0, kstr("ENDTAB"))] + end
    for n in ("HEADER", "CLASSES", "TABLES", "BLOCKS", "ENTITIES", "OBJECTS"):
        out["an empty %s section" % n] = sec + [pr(p, 2, kstr(n))] + end
    return out


def case(p, name, its, mode):
    n = sum(1 for _ in flatten_pairs(its))
    feed = type("F", (Cut,), {"mode": mode, "last": n - 1})
    fd = feed(p, its, hooks=hooks(p), tail=[mkpair(p, 0, kstr("EOF"))])
    s = fd.start()
    s.store[("O", "iter")] = mk("sym", "iter")
    s.store[BACK] = UNINIT
    s.store[("O", "drawing")] = fresh(p, len(versions(p)) - 1)
    bad = []
    rd = method(p, DR, "read_sections")
    try:
        res = fd.run(rd, st=s)
    except Unsupported as e:
        if "no progress at pair %d" % fd.over in str(e):
            return sorted(fd.cuts), ["does not come to an end: " + str(e).split(" at pair")[0]], set(fd.analysed), n
        raise
    for s, ret in res:
        if fd.pos(s) != fd.over:
            continue
        if not (ret.op == "agg" and ret.a[0] == RESULT):
            raise Unsupported("result %s" % show(ret)[:100])
        if ret.a[1] == 0:
            bad.append("is accepted: the drawing so far is returned")
        elif mode == "error" and ret.a[2][0] is not BROKEN:
            bad.append("is reported as something else: %s" % show(ret.a[2][0])[:80])
    return sorted(fd.cuts), sorted(set(bad)), set(fd.analysed), n


def byte_files(p):
    """{name: (bytes, first and last length that ends inside the section)}"""
    xs = ["0", "SECTION", "2", "HEADER", "9", "$ACADVER", "1", "AC1027", "9", "$LUNITS", "70", "4", "9", "$MENU", "1", "m", "0", "ENDSEC", "0", "EOF"]
    out = {}
    for nm, nl in (("a text file", "\n"), ("a text file with CR LF", "\r\n")):
        bs = c29.lines(p, xs, nl)
        a = len(c29.lines(p, xs[:1] + ["SECTION"], nl, False))
        b = len(c29.lines(p, xs[:17] + ["ENDSE"], nl, False))
        out[nm] = bs, a, b
    hd = c29.lines(p, ["AutoCAD Binary DXF"], "\r\n") + (kint("u8", 0x1A), kint("u8", 0))
    body = b"\0\0SECTION\0\x02\0HEADER\0\x09\0$ACADVER\0\x01\0AC1027\0\x09\0$LUNITS\0\x46\0\x04\0\x09\0$MENU\0\x01\0m\0\0\0ENDSEC\0"
    out["a binary file"] = hd + tuple(kint("u8", x) for x in body), len(hd) + 1, len(hd) + len(body) - 1
    return out


def byte_case(p, name, bs, n):
    used = set()
    bad = None
    for pc, k, d in c29.whole(p, bs[:n], used):
        if k != "error":
            bad = "%s cut after %d bytes, inside its header, loads" % (name, n)
    return bad, used


def run(p, rep):
    rep.rule = ("abstract interpretation of the section reader on every section the writers produce, where before every pair the input may end or fail: "
                "no path on which it ended or failed inside a section returns a drawing, and a failure is returned as it is")
    rep.assume += ["a record reader handed the end of the input returns an error, nothing or a record; handed a failure it returns it (C03)"]
    for adt in (ENT, OBJ):
        rd = method(p, adt, "read")
        fd = Cut(p, [], hooks=HR, tail=[])
        s = fd.start()
        s.store[("O", "iter")] = mk("sym", "iter")
        for s, ret in fd.run(rd, st=s):
            good = ret.op == "agg" and ret.a[0] == RESULT and (ret.a[1] == 1 or ret.a[2][0] is NONE)
            rep.check(good, "no record at the end", adt, rd.name, "a record is read where the input has ended")
    secs = sections(p)
    jobs = [(n, m) for n in secs for m in ("end", "error")]
    for (n, m), r, e in pmap(lambda j: case(p, j[0], secs[j[0]], j[1]), jobs):
        if e:
            report.und("UNDECIDED %s %s: %s" % (n, m, e.strip().splitlines()[-1][:200]))
            rep.count("undecided")
            continue
        cuts, bad, fns, total = r
        rep.functions |= fns
        what = "input ends inside a section" if m == "end" else "input fails inside a section"
        for x in bad:
            rep.bad(what, n, "%s::read_sections" % DR, "%s whose input %s inside it %s" % (n, "ends" if m == "end" else "fails", x))
        for q in cuts:
            rep.count("places")
        rep.check(bool(cuts), what, "%s %d places" % (n, len(cuts)), DR, "no place found", "%s: %d of %d" % (n, len(cuts), total))
    files = byte_files(p)
    jobs = [(nm, n) for nm, (bs, a, b) in files.items() for n in range(a, b + 1)]
    for (nm, n), r, e in pmap(lambda j: byte_case(p, j[0], files[j[0]][0], j[1]), jobs):
        if e:
            report.und("UNDECIDED %s of %d bytes: %s" % (nm, n, e.strip().splitlines()[-1][:200]))
            rep.count("undecided")
            continue
        rep.functions |= r[1]
        rep.check(r[0] is None, "file cut at any byte", "%s %d" % (nm, n), c29.WHERE, r[0])
    rep.floor("places", 100)
