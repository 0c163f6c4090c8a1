"""The thumbnail of a drawing survives its file form."""
import report
from pairs import *
from par import pmap
from rules import c29

IMG = mk("sym", "thumbnail image")
WHERE = "Drawing::add_thumbnail_pairs; thumbnail::read_thumbnail"
MIN = "R2000"


def le(n, k):
    return tuple(kint("u8", (n >> (8 * i)) & 0xFF) for i in range(k))


def bmp(header, colors, pixels):
    """a BMP file as the image library writes it, whose other bytes differ from place to place"""
    data = tuple(bsym("b%d" % i) for i in range(colors * 4 + pixels))
    dib = le(header, 4) + tuple(bsym("h%d" % i) for i in range(4, 32)) + le(colors, 4) + tuple(bsym("h%d" % i) for i in range(36, header))
    size = 14 + header + colors * 4 + pixels
    return (kint("u8", 0x42), kint("u8", 0x4D)) + le(size, 4) + le(0, 4) + le(14 + header + colors * 4, 4) + dib + data


def bsym(n):
    """a byte that tells its place (which bytes survive is decided per value by C13)"""
    i = int(n[1:])
    return kint("u8", (i * 7 + i // 101 * 29 + (i * i // 253) * 3 + ord(n[0])) & 255)


class Thumb(Codec):
    LIMIT = 1500

    def __init__(self, p, bytes_=None, handed=None):
        def write_to(it, st, fr, a, i):
            if it.val(st, a[0]) is not IMG:
                raise Undef("the image written is not the drawing's thumbnail")
            loc, path = it.deref(st, a[1])
            v = it.read_path(st, loc, path)
            while v.op == "ref":
                loc, path = it.deref(st, v)
                v = it.read_path(st, loc, path)
            if v.op != "vec":
                raise Undef("the image is written to %s" % show(v)[:80])
            it.write(st, fr, loc, path, mk("vec", v.a[0] + tuple(bytes_)), i["span"], event=False)
            return [(st, ok(UNIT))]

        def load_mem(it, st, fr, a, i):
            v = it.val(st, a[0])
            handed.append((st.pc, v))
            return [(st, ok(IMG))]
        super().__init__(p, hooks={"image::DynamicImage::write_to": write_to, "image::load_from_memory": load_mem, "image::images::dynimage::load_from_memory": load_mem,
                                   "image::images::dynimage::DynamicImage::write_to": write_to, "image::dynimage::DynamicImage::write_to": write_to, "image::dynimage::load_from_memory": load_mem})
        self.events_off = True


def written(p, bs, ver, used):
    """[(pc, pairs, result)]"""
    b = rt.method(p, DR, "add_thumbnail_pairs")
    it = Thumb(p, bs)
    it.models["std::io::Cursor::<T>::new"] = lambda it, st, fr, a, i: [(st, a[0])]
    st = State()
    st.store[("O", "self")] = agg(p, DR, header=agg(p, c29.HDR, version=version(p, ver)), thumbnail=some(IMG) if bs is not None else NONE)
    st.store[("O", "pairs")] = mk("vec", ())
    r = it.run(b, args=[mk("ref", ("O", "self"), ()), mk("ref", ("O", "pairs"), ())], st=st)
    used |= it.analysed
    return [(s2.pc, o.a[0], it.val(s2, v)) for s, v in r for s2, o in it.split(s, s.store[("O", "pairs")])]


def loaded(p, bs, used, pc=1):
    """[(pc, "ok"/"error", thumbnail or error)], [bytes handed to the image decoder]"""
    handed = []
    it = Thumb(p, None, handed)
    it.models["std::io::Cursor::<T>::new"] = it.cursor
    it.models["std::io::BufReader::<R>::new"] = lambda it, st, fr, a, i: [(st, a[0])]
    st = State()
    st.pc = pc
    st.store[it.IN] = mk("vec", tuple(bs))
    st.store[it.POS] = kint("usize", 0)
    out = []
    for s, v in it.run(public(p, "load"), args=[mk("ref", ("O", "$r"), ())], st=st):
        for s2, x in it.split(s, it.val(s, v)):
            if x.op != "agg" or x.a[0] != RESULT:
                raise Undef("result of load: %s" % show(x)[:100])
            d = it.val(s2, x.a[2][0])
            out.append((s2.pc, "ok" if x.a[1] == 0 else "error", it.val(s2, c29.field(p, DR, d, "thumbnail")) if x.a[1] == 0 else d))
    used |= it.analysed
    return out, handed


def pairs_of(p, xs):
    return [pair(p, *x) for x in xs]


def frame(p, xs, ver="R2013"):
    return pairs_of(p, [(0, "Str", kstr("SECTION")), (2, "Str", kstr("HEADER")), (9, "Str", kstr("$ACADVER")), (1, "Str", kstr(c29.NAMES[ver])), (0, "Str", kstr("ENDSEC"))]) + list(xs) + \
        pairs_of(p, [(0, "Str", kstr("EOF"))])


def back(p, ps, want, text, used, ver="R2013"):
    """None, or what is wrong with the thumbnail read from these pairs; want: bytes, None (no thumbnail) or "error" """
    for pc, bs, ret in save(p, frame(p, ps, ver), ver, text, used):
        if not (ret.op == "agg" and ret.a[1] == 0):
            return "saving fails"
        out, handed = loaded(p, bs, used, pc)
        for pc2, k, t in out:
            if want == "error":
                if k != "error":
                    return "is accepted"
                continue
            if k != "ok":
                return "loading fails: %s" % show(t)[:120]
            if want is None:
                if t is not NONE:
                    return "a thumbnail is read where there is none"
            elif t is not some(IMG):
                return "no thumbnail is read: %s" % show(t)[:80]
        if want not in (None, "error"):
            if len(handed) != 1:
                return "the image is decoded %d times" % len(handed)
            v = handed[0][1]
            if v.op != "vec":
                raise Undef("the image is decoded from %s" % show(v)[:80])
            if v.a[0] != want:
                n = next((k for k, (x, y) in enumerate(zip(v.a[0], want)) if x is not y), min(len(v.a[0]), len(want)))
                return "the image decoded differs from the one saved at byte %d (%d bytes instead of %d): %s" % (n, len(v.a[0]), len(want), show(v.a[0][n])[:40] if n < len(v.a[0]) else "missing")
    return None


SIZES = [(40, 0, n) for n in (0, 1, 4, 87, 88, 89, 216, 217, 300)] + [(40, 1, 8), (40, 2, 4), (40, 16, 60), (40, 256, 12), (52, 0, 8), (56, 0, 8), (108, 0, 16), (108, 16, 5), (124, 0, 16), (124, 2, 9)]


def case(p, job, used):
    kind = job[0]
    if kind == "trip":
        _, ver, text, size = job
        bs = bmp(*size)
        n = "%s %s file, header %d, %d colours, %d bytes of pixels" % ((ver, "text" if text else "binary") + size)
        for pc, ps, ret in written(p, bs, ver, used):
            if not (ret.op == "agg" and ret.a[1] == 0):
                return n, "thumbnail round trip", "writing it fails"
            xs = [parts(p, x) for x in ps]
            if xs[2][:2] != (kint("i32", 90), "Integer") or xs[2][2] is not kint("i32", len(bs) - 14):
                return n, "thumbnail written", "the length is written as %s" % show(xs[2][2])[:60]
            if any(k == "Binary" and (v.op != "vec" or len(v.a[0]) > 254) for c, k, v in xs):
                return n, "thumbnail written", "a line holds more bytes than a line may"
            m = back(p, ps, bs, text, used, ver)
            if m:
                return n, "thumbnail round trip", m
        return n, "thumbnail round trip", None
    if kind == "version":
        _, ver = job
        early = rt.versions(p).index(ver) < rt.versions(p).index(MIN)
        for pc, ps, ret in written(p, bmp(40, 0, 4), ver, used):
            if bool(ps) == early:
                return ver, "thumbnail version", "a thumbnail is %s" % ("written" if early else "not written")
        for pc, ps, ret in written(p, None, ver, used):
            if ps:
                return ver, "thumbnail version", "a thumbnail section is written for a drawing without one"
        return ver, "thumbnail version", None
    _, k, text = job
    n, xs, want = foreign(p)[k]
    return n + (" in a text file" if text else " in a binary file"), "thumbnail of another program", back(p, pairs_of(p, xs), want, text, used)


def foreign(p):
    def data(bs, n):
        bs = bs[14:]
        return [(310, "Binary", mk("vec", bs[i:i + n])) for i in range(0, len(bs), n)]
    A, Z = [(0, "Str", kstr("SECTION")), (2, "Str", kstr("THUMBNAILIMAGE"))], [(0, "Str", kstr("ENDSEC"))]

    def ln(bs):
        return [(90, "Integer", kint("i32", len(bs) - 14))]
    b = bmp(40, 2, 70)
    out = []
    for k in (1, 10, 127, 254):
        out.append(("lines of %d bytes" % k, A + ln(b) + data(b, k) + Z, b))
    out.append(("an empty section", A + Z, None))
    out.append(("a length that is wrong", A + [(90, "Integer", kint("i32", 3))] + data(b, 100) + Z, b))
    out.append(("no length", A + data(b, 100) + Z, "error"))
    out.append(("another code in the data", A + ln(b) + data(b, 100) + [(70, "Short", kint("i16", 1))] + data(b, 100) + Z, "error"))
    out.append(("a length and no data", A + [(90, "Integer", kint("i32", 0))] + Z, "error"))
    out.append(("data shorter than its header", A + ln(b) + [(310, "Binary", mk("vec", b[14:14 + 20]))] + Z, "error"))
    core = (kint("u8", 12),) + le(0, 3) + tuple(bsym("c%d" % i) for i in range(40))
    out.append(("a header too short for a palette", A + [(90, "Integer", kint("i32", len(core)))] + [(310, "Binary", mk("vec", core))] + Z, None))
    return out


def run(p, rep):
    rep.rule = ("abstract interpretation of the thumbnail writer, save, load and the thumbnail reader on BMP files of many sizes, headers and palettes: "
                "the bytes handed to the image decoder are those the image encoder produced, including the file header that DXF leaves out")
    rep.assume += ["the image library writes and reads BMP files", "sizes: header 40 to 124 bytes, 0 to 256 palette colours, up to 1036 bytes of data, around the line length"]
    jobs = [("trip", v, t, s) for v, t in (("R2013", True), ("R2000", False)) for s in SIZES] + [("trip", v, t, (40, 0, 100)) for v in c29.NAMES if v >= MIN and v.startswith("R20") for t in (True, False)]
    jobs += [("version", v) for v in rt.versions(p)]
    jobs += [("foreign", k, t) for k in range(len(foreign(p))) for t in (True, False)]

    def go(j):
        used = set()
        return case(p, j, used), used
    for j, r, e in pmap(go, jobs):
        if e:
            report.und("UNDECIDED %s: %s" % (str(j[:2]), e.strip().splitlines()[-1][:300]))
            rep.count("undecided")
            continue
        (n, rule, msg), used = r
        rep.functions |= used
        rep.check(msg is None, rule, n, WHERE, "thumbnail (%s): %s" % (n, msg), n)
    rep.floor("thumbnail round trip", 10)
