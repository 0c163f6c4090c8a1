"""The file formats: which one is written, how a file is recognised, which encoding its text has."""
import report
from pairs import *
from par import pmap
from rules.c13 import lines

HDR = "generated::header::Header"
WHERE = "Drawing::load, load_with_encoding, load_from_iter; Header::read"


def field(p, adt, v, name):
    fs = [f[0] for f in p.adts[adt]["variants"][0][2]]
    return v.a[2][fs.index(name)]


def whole(p, bs, used, entry="load", extra=(), pc=1, path=None, strict=False):
    """[(pc, "ok", drawing) or (pc, "error", term)]: the whole of load on the bytes of a file"""
    opened = []
    it = Codec(p, hooks=opens(opened, ("std::fs::File::open",)))
    it.strict = strict
    it.models["std::io::Cursor::<T>::new"] = it.cursor
    it.models["std::io::BufReader::<R>::new"] = lambda it, st, fr, a, i: [(st, a[0])]
    it.models["std::io::BufReader::<R>::with_capacity"] = lambda it, st, fr, a, i: [(st, a[1])]
    it.events_off = True
    st = State()
    st.pc = pc
    st.store[it.IN] = mk("vec", tuple(bs))
    st.store[it.POS] = kint("usize", 0)
    first = mk("ref", ("O", "$r"), ()) if path is None else path
    out = []
    for s, v in it.run(public(p, entry), args=[first] + list(extra), st=st):
        for s2, x in it.split(s, it.val(s, v)):
            if x.op != "agg" or x.a[0] != RESULT:
                raise Undef("result of %s: %s" % (entry, show(x)[:100]))
            out.append((s2.pc, "ok" if x.a[1] == 0 else "error", it.val(s2, x.a[2][0])))
    if used is not None:
        used |= it.analysed
    return (out, opened) if path is not None else out


def header_of(p, d):
    if d.op != "agg" or d.a[0] != DR:
        raise Undef("loaded drawing %s" % show(d)[:100])
    return field(p, DR, d, "header")


NAMES = {"R12": "AC1009", "R13": "AC1012", "R14": "AC1014", "R2000": "AC1015", "R2004": "AC1018", "R2007": "AC1021", "R2010": "AC1024", "R2013": "AC1027", "R2018": "AC1032",
         "R10": "AC1006", "R9": "AC1004", "Version_2_6": "AC1003"}
TEXT = (chrk("a"), csym("u2", U2), csym("u3", (0x800, 0xD7FF)))


def strs(xs):
    return [kstr(x) if isinstance(x, str) else x for x in xs]


def versions_case(p, job, used):
    """(name, rule, message) of one version and format, end to end"""
    ver, text = job
    t = txt(TEXT)
    xs = [(0, "Str", kstr("SECTION")), (2, "Str", kstr("HEADER")), (9, "Str", kstr("$ACADVER")), (1, "Str", kstr(NAMES[ver])), (9, "Str", kstr("$MENU")), (1, "Str", t),
          (0, "Str", kstr("ENDSEC")), (0, "Str", kstr("EOF"))]
    n = "%s file of %s" % ("text" if text else "binary", ver)
    for pc, bs, ret in save(p, [pair(p, *x) for x in xs], ver, text, used):
        if not (ret.op == "agg" and ret.a[1] == 0):
            return n, "version and text", "saving fails"
        for pc2, k, d in whole(p, bs, used, pc=pc):
            if k != "ok":
                return n, "version and text", "loading fails: %s" % show(d)[:120]
            h = header_of(p, d)
            v, s = field(p, HDR, h, "version"), field(p, HDR, h, "file_name")
            if v is not version(p, ver):
                return n, "version and text", "the version is read as %s" % show(v)
            if s is not t:
                return n, "version and text", "the text %s is read as %s" % (show(t), show(s)[:120])
    return n, "version and text", None


def first_variable(p, ver, used):
    """the first header variable written is $ACADVER with the version's name"""
    b = [b for b in p.bodies.values() if b.isfn and b.argc == 2 and not b.trait and b.self_ty == ("adt", HDR) and "CodePair" in str(b.locals[2]) and b.locals[2][0] == "ref"]
    cg = {f: any(g is not f and f.key in str(g.blocks) for g in b) for f in b}
    top = [f for f in b if f.name.startswith("header::")] or b
    it = Codec(p)
    it.events_off = True
    it.deadline = __import__("time").time() + 200
    seen = []
    orig = models.MODELS["std::vec::Vec::<T, A>::push"]

    class Stop(Exception):
        pass

    def push(it, st, fr, a, i):
        v = it.val(st, a[1])
        if v.op == "agg" and v.a[0] == CP:
            seen.append(parts(p, v))
            if len(seen) == 4:
                raise Stop()
        return orig(it, st, fr, a, i)
    it.models["std::vec::Vec::<T, A>::push"] = push
    st = State()
    st.store[("O", "h")] = agg(p, HDR, version=version(p, ver))
    st.store[("O", "v")] = mk("vec", ())
    try:
        it.run(public_header(p), args=[mk("ref", ("O", "h"), ()), mk("ref", ("O", "v"), ())], st=st)
    except Stop:
        pass
    used |= it.analysed
    n = "first variable in %s" % ver
    got = [(c.a[1] if is_k(c) else None, v.a[1] if is_k(v) else show(v)[:40]) for c, k, v in seen]
    want = [(0, "SECTION"), (2, "HEADER"), (9, "$ACADVER")]
    if got[:3] != want:
        return n, "version first", "the header starts with %s" % got
    if ver in NAMES and got[3:] != [(1, NAMES[ver])]:
        return n, "version first", "$ACADVER is %s" % got[3:]
    return n, "version first", None


def public_header(p):
    c = [b for b in p.bodies.values() if b.isfn and b.argc == 2 and not b.trait and b.self_ty == ("adt", HDR) and b.locals[2][0] == "ref" and "CodePair" in str(b.locals[2]) and
         b.span.startswith("src/header.rs")]
    if len(c) != 1:
        raise Undef("the header writer is not identified")
    return c[0]


def ends(p, used):
    """[(name, rule, message)]"""
    sec = ["0", "SECTION", "2", "HEADER", "9", "$MENU", "1", "m", "0", "ENDSEC"]
    out = []

    def one(n, bs, want, menu=None, rule="end of the file"):
        try:
            msg = None
            for pc, k, d in whole(p, bs, used):
                if k != want:
                    msg = "loading gives %s, expected %s" % (k if k == "ok" else "the error " + show(d)[:80], "a drawing" if want == "ok" else "an error")
                elif menu is not None and field(p, HDR, header_of(p, d), "file_name") is not kstr(menu):
                    msg = "the content is not read: %s" % show(field(p, HDR, header_of(p, d), "file_name"))[:80]
            out.append((n, rule, msg))
        except (Undef, Bound, rt.Unsupported) as e:
            out.append((n, None, str(e)[:200]))
    one("EOF at the end", lines(p, sec + ["0", "EOF"]), "ok", "m")
    one("no EOF", lines(p, sec), "ok", "m")
    one("empty lines after EOF", lines(p, sec + ["0", "EOF", "", ""]), "ok", "m")
    one("something else where EOF or a section is expected", lines(p, sec + ["0", "LINE", "0", "EOF"]), "error")
    one("a pair between sections", lines(p, sec + ["5", "1A", "0", "EOF"]), "error")
    one("a section that does not end", lines(p, sec[:-2]), "error")
    one("a section without a name", lines(p, ["0", "SECTION", "0", "ENDSEC", "0", "EOF"]), "error")
    one("an empty file", (), "ok")
    one("an empty line", lines(p, [""]), "ok")
    one("only EOF", lines(p, ["0", "EOF"]), "ok")
    one("a file cut in the middle of a pair", lines(p, sec[:-1]), "error")
    one("a first line that is not a group code", lines(p, ["hello", "world"]), "error", rule="recognising the format")
    one("a binary file without its end marks", lines(p, ["AutoCAD Binary DXF"], "\r\n") + (kint("u8", 0x1B), kint("u8", 0)), "error", rule="recognising the format")
    one("a binary file that ends in its first line", lines(p, ["AutoCAD Binary DXF"], "\r\n"), "error", rule="recognising the format")
    hd = lines(p, ["AutoCAD Binary DXF"], "\r\n") + (kint("u8", 0x1A), kint("u8", 0))

    def z(s):
        return tuple(kint("u8", b) for b in s)
    body = b"\0SECTION\0\x02HEADER\0\x09$MENU\0\x01m\0\0ENDSEC\0"
    one("a binary file with codes of one byte", hd + z(body + b"\0EOF\0"), "ok", "m", "recognising the format")
    body2 = b"\0\0SECTION\0\x02\0HEADER\0\x09\0$MENU\0\x01\0m\0\0\0ENDSEC\0"
    one("a binary file with codes of two bytes", hd + z(body2 + b"\0\0EOF\0"), "ok", "m", "recognising the format")
    one("a binary file cut in a text", hd + z(body2[:-3]), "error", None, "recognising the format")
    one("a binary file cut in a code", hd + z(body2 + b"\0"), "error", None, "recognising the format")
    one("text with a byte order mark", (kint("u8", 0xEF), kint("u8", 0xBB), kint("u8", 0xBF)) + lines(p, sec + ["0", "EOF"]), "ok", "m", "recognising the format")
    return out


def encodings(p, used):
    """the encoding a caller gives is the one the text is read with, until the file says UTF-8"""
    out = []
    c = csym("u2", U2)
    for enc, acad, want in ((UTF8, None, c), (UTF8, "AC1009", c), (W1252, None, mk("mojibake", c)), (W1252, "AC1021", c), (UTF8, "AC1021", c)):
        for entry, path in (("load_with_encoding", None), ("load_file_with_encoding", mk("sym", "$path"))):
            n = "%s with %s, $ACADVER %s" % (entry, "UTF-8" if enc is UTF8 else "Windows-1252", acad)
            try:
                xs = ["0", "SECTION", "2", "HEADER"] + (["9", "$ACADVER", "1", acad] if acad else []) + ["9", "$MENU", "1", (c,), "0", "ENDSEC", "0", "EOF"]
                r = whole(p, lines(p, xs), used, entry, (mk("ref", ("O", "static:" + enc.a[0].split(":", 1)[1]), ()),), path=path)
                msg = None
                if path is not None:
                    r, opened = r
                    if opened != [path]:
                        msg = "the file opened is %s" % [show(x) for x in opened]
                for pc, k, d in r:
                    if k != "ok":
                        msg = "loading fails: %s" % show(d)[:100]
                    elif field(p, HDR, header_of(p, d), "file_name") is not txt((want,)):
                        msg = "the text is read as %s" % show(field(p, HDR, header_of(p, d), "file_name"))[:80]
                out.append((n, "encoding", msg))
            except (Undef, Bound, rt.Unsupported) as e:
                out.append((n, None, str(e)[:200]))
    for entry, path in (("load", None), ("load_file", mk("sym", "$path"))):
        n = entry + " without an encoding"
        try:
            r = whole(p, lines(p, ["0", "SECTION", "2", "HEADER", "9", "$MENU", "1", (kint("u8", 0xE9),), "0", "ENDSEC", "0", "EOF"]) if False else
                      lines(p, ["0", "SECTION", "2", "HEADER", "9", "$MENU", "1"]) + (kint("u8", 0xE9), kint("u8", 13), kint("u8", 10)) + lines(p, ["0", "ENDSEC", "0", "EOF"]), used, entry, (), path=path)
            msg = None
            if path is not None:
                r, opened = r
                if not opened:
                    raise rt.Unsupported("no file is seen to be opened")
                if opened != [path]:
                    msg = "the file opened is %s" % [show(x) for x in opened]
            for pc, k, d in r:
                if k != "ok" or field(p, HDR, header_of(p, d), "file_name") is not kstr("\xe9"):
                    msg = "the code page byte E9 is read as %s" % show(d if k != "ok" else field(p, HDR, header_of(p, d), "file_name"))[:80]
            out.append((n, "encoding", msg))
        except (Undef, Bound, rt.Unsupported) as e:
            out.append((n, None, str(e)[:200]))
    return out


def files(p, used):
    """the functions that write files write what their counterparts write, to the path given"""
    out = []
    f = pairs_fn(p)
    xs = [pair(p, 0, "Str", kstr("SECTION")), pair(p, 1, "Str", txt(TEXT)), pair(p, 40, "Double", mk("sym", "d")), pair(p, 290, "Boolean", kint("i16", 1)), pair(p, 0, "Str", kstr("EOF"))]
    for ver in ("R12", "R2018"):
        for plain, tofile in (("save", "save_file"), ("save_binary", "save_file_binary")):
            n = "%s of %s" % (tofile, ver)
            try:
                want = {(pc, tuple(bs)) for pc, bs, ret in save(p, xs, ver, plain == "save", used)}
                opened = []
                it = Codec(p, hooks={f.key: lambda it, st, fr, a, i: [(st, ok(mk("vec", tuple(xs))))], **opens(opened)})
                it.models["std::io::BufWriter::<W>::new"] = lambda it, st, fr, a, i: [(st, a[0])]
                it.models["std::io::BufWriter::<W>::with_capacity"] = lambda it, st, fr, a, i: [(st, a[1])]
                it.events_off = True
                st = State()
                st.store[it.OUT] = mk("vec", ())
                st.store[("O", "self")] = agg(p, DR, header=agg(p, HDR, version=version(p, ver)))
                path = mk("sym", "$path")
                r = it.run(public(p, tofile), args=[mk("ref", ("O", "self"), ()), path], st=st)
                used |= it.analysed
                got, msg = set(), None
                for s, v in r:
                    for s2, o in it.split(s, s.store[it.OUT]):
                        for s3, x in it.split(s2, it.val(s2, v)):
                            if x.op == "agg" and x.a[1] == 0:
                                got.add((s3.pc, o.a[0]))
                if not opened:
                    raise rt.Unsupported("no file is seen to be created")
                if opened != [path]:
                    msg = "the files created are %s" % [show(x) for x in opened]
                elif {b for _, b in got} != {b for _, b in want}:
                    msg = "the bytes are not those of %s" % plain
                out.append((n, "writing files", msg))
            except (Undef, Bound, rt.Unsupported) as e:
                out.append((n, None, str(e)[:200]))
    return out


def run(p, rep):
    rep.rule = ("load, interpreted abstractly on the bytes of a file down to the header of the drawing it returns: format recognised, $ACADVER obeyed (UTF-8 from R2007 on, the caller's "
                "encoding before), file end rules; the header writer puts $ACADVER first; save_file*/load_file* act on the path given and behave as their counterparts")
    vs = [v for v in rt.versions(p) if v in NAMES]
    jobs = [("v", v, t) for v in vs for t in (True, False)] + [("f", v, None) for v in rt.versions(p)] + [("e", None, None), ("c", None, None), ("w", None, None)]

    def go(i):
        k, v, t = jobs[i]
        used = set()
        try:
            r = {"v": lambda: [versions_case(p, (v, t), used)], "f": lambda: [first_variable(p, v, used)], "e": lambda: ends(p, used), "c": lambda: encodings(p, used), "w": lambda: files(p, used)}[k]()
        except (Undef, Bound, rt.Unsupported) as e:
            r = [(str(jobs[i]), None, str(e)[:200])]
        return r, used
    for i, r, err in pmap(go, range(len(jobs))):
        if err:
            report.und("UNDECIDED %s: %s" % (jobs[i], err.strip().splitlines()[-1][:300]))
            continue
        rep.functions |= r[1]
        for n, rule, msg in r[0]:
            if rule is None:
                report.und("UNDECIDED %s: %s" % (n, msg))
            else:
                rep.check(msg is None, rule, n, WHERE, "%s: %s" % (n, msg))
    rep.floor("version and text", 12)
    rep.floor("end of the file", 6)
