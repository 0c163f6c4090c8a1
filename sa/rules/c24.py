"""DXB files: what save_dxb writes, load gives back; every item of a DXB file has its meaning."""
import report
from pairs import *
from par import pmap
from rules.c29 import whole, field

WHERE = "DxbWriter::write, DxbReader::load"
ENT, ET, COMMON, BLOCK = "generated::entities::Entity", "generated::entities::EntityType", "generated::entities::EntityCommon", "block::Block"
G = "generated::entities::"


def adt_of(p, name, pre=""):
    c = [k for k in p.adts if k.rsplit("::", 1)[-1] == name and k.startswith(pre)]
    if len(c) != 1:
        raise Undef("type %s: %s" % (name, c))
    return c[0]


def vec_field(p, adt, elem):
    """name of the field of adt that is a list of elem (or of tuples that start with elem)"""
    fs = [f[0] for f in p.adts[adt]["variants"][0][2] if "Vec" in str(f[1]) and "'%s'" % elem in str(f[1])]
    if len(fs) != 1:
        raise Undef("list of %s in %s: %s" % (elem, adt, fs))
    return fs[0]


def z(s):
    return tuple(kint("u8", b) for b in s)


HEAD = z(b"AutoCAD DXB 1.0\r\n\x1a\0")
REAL = z(b"\x87\x01\0")


def num(n, ty):
    return tuple(mk("byte", mk("sym", n), ty, i) for i in range(SIZE[ty]))


# entity type -> its coordinates in the order of the file: field or point.coordinate; those left out are 0 afterwards
PT2, PT3 = ("x", "y"), ("x", "y", "z")


def pts(names, dims):
    return [n + "." + d for n in names for d in dims]


CORNERS = ("first_corner", "second_corner", "third_corner", "fourth_corner")
SHAPES = {
    "Arc": (8, pts(["center"], PT2) + ["radius", "start_angle", "end_angle"]),
    "Circle": (3, pts(["center"], PT2) + ["radius"]),
    "Face3D": (22, pts(CORNERS, PT3)),
    "Line": (1, pts(["p1", "p2"], PT3)),
    "ModelPoint": (2, pts(["location"], PT2)),
    "Solid": (11, pts(CORNERS, PT2)),
    "Trace": (9, pts(CORNERS, PT2)),
    "Vertex": (20, pts(["location"], PT2)),
    "Seqend": (17, []),
}


class W:
    """entities of known kind with symbolic coordinates, and their geometry read off a loaded drawing"""

    def __init__(self, p):
        self.p = p
        self.ent, self.et, self.com = adt_of(p, "Entity"), adt_of(p, "EntityType"), adt_of(p, "EntityCommon")
        self.blk, self.pt, self.col = adt_of(p, "Block"), adt_of(p, "Point"), adt_of(p, "Color")
        self.names = [v[0] for v in p.adts[self.et]["variants"]]
        self.n = 0

    def struct(self, kind):
        v = self.p.adts[self.et]["variants"][self.names.index(kind)]
        t = v[2][0][1]
        return t if isinstance(t, str) else t[1]

    def sym(self):
        self.n += 1
        return mk("sym", "v%d" % self.n)

    def spec(self, kind, closed=None, verts=0):
        """(struct agg, expected geometry)"""
        adt = adt_of(self.p, kind, self.mod())
        kw, geo = {}, {}
        if kind in SHAPES:
            points = {}
            for c in SHAPES[kind][1]:
                v = self.sym()
                geo[c] = v
                if "." in c:
                    points.setdefault(c.split(".")[0], {})[c.split(".")[1]] = v
                else:
                    kw[c] = v
            for f, cs in points.items():
                kw[f] = agg(self.p, self.pt, **{d: cs.get(d) or self.sym() for d in "xyz"})
                if "z" not in cs:
                    geo[f + ".z"] = None
        if kind == "Polyline":
            vs = [self.spec("Vertex") for _ in range(verts)]
            kw["flags"] = kint("i32", closed)
            kw[vec_field(self.p, adt, adt_of(self.p, "Vertex", self.mod()))] = mk("vec", tuple(mk("agg", "()", 0, (v, mk("sym", "?h"))) for v, _ in vs))
            geo["closed"] = closed & 1
            geo["vertices"] = [g for _, g in vs]
        return agg(self.p, adt, **kw), geo

    def mod(self):
        return self.et.rsplit("::", 1)[0] + "::"

    def entity(self, kind, layer="0", color=256, **kw):
        s, geo = self.spec(kind, **kw)
        c = agg(self.p, self.com, layer=kstr(layer) if isinstance(layer, str) else layer, color=mk("agg", self.col, 0, (kint("i16", color) if isinstance(color, int) else color,)))
        return agg(self.p, self.ent, common=c, specific=mk("agg", self.et, self.names.index(kind), (s,))), (kind, geo, layer, color)

    def f(self, adt, v, name):
        if v.op != "agg" or v.a[0] != adt:
            raise Undef("%s is %s" % (adt, show(v)[:100]))
        return field(self.p, adt, v, name)

    def compare(self, e, want, conv, common=True):
        """None or what differs"""
        kind, geo, layer, color = want
        sp = self.f(self.ent, e, "specific")
        if sp.op != "agg" or sp.a[0] != self.et:
            raise Undef("entity kind %s" % show(sp)[:80])
        if self.names[sp.a[1]] != kind:
            return "a %s comes back as a %s" % (kind, self.names[sp.a[1]])
        if common:
            c = self.f(self.ent, e, "common")
            l = self.f(self.com, c, "layer")
            if l is not (kstr(layer) if isinstance(layer, str) else layer):
                return "the layer of a %s is %s, expected %s" % (kind, show(l)[:60], layer if isinstance(layer, str) else show(layer))
            k = self.f(self.com, c, "color").a[2][0]
            if k is not (kint("i16", color) if isinstance(color, int) else color):
                return "the colour of a %s is %s, expected %s" % (kind, show(k)[:80], color if isinstance(color, int) else show(color))
        return self.geometry(kind, sp.a[2][0], geo, conv)

    def geometry(self, kind, s, geo, conv):
        adt = adt_of(self.p, kind, self.mod())
        for c, v in geo.items():
            if c == "closed":
                fl = self.f(adt, s, "flags")
                if not is_k(fl):
                    raise Undef("flags %s" % show(fl)[:60])
                if (fl.a[1] & 1) != v:
                    return "a polyline that is %sclosed comes back %sclosed" % ("" if v else "not ", "not " if v else "")
            elif c == "vertices":
                vs = self.f(adt, s, vec_field(self.p, adt, adt_of(self.p, "Vertex", self.mod())))
                if vs.op != "vec":
                    raise Undef("vertices %s" % show(vs)[:60])
                if len(vs.a[0]) != len(v):
                    return "a polyline with %d vertices comes back with %d" % (len(v), len(vs.a[0]))
                for x, g in zip(vs.a[0], v):
                    m = self.geometry("Vertex", x.a[2][0], g, conv)
                    if m:
                        return m
            else:
                x = s
                a = adt
                for part in c.split("."):
                    x = self.f(a, x, part)
                    a = self.pt
                w = kf64(0.0) if v is None else conv(v)
                if mono(x) != mono(w):
                    return "%s of a %s is %s, expected %s" % (c, kind, show(x)[:80], show(w)[:80])
        return None


def mono(t):
    """product of powers: (coefficient, ((factor, power), ..)) of a real term"""
    if t.op == "bin" and t.a[0] in ("Mul", "Div") or t.op in ("Mul", "Div"):
        op, x, y = t.a if t.op == "bin" else (t.op,) + t.a[:2]
        (c, f), (d, g) = mono(x), mono(y)
        fs = dict(f)
        for k, n in g:
            fs[k] = fs.get(k, 0) + (n if op == "Mul" else -n)
        if op == "Div" and d == 0:
            return (1.0, ((t, 1),))
        return (c * d if op == "Mul" else c / d, tuple(sorted(((k, n) for k, n in fs.items() if n), key=lambda z: str(z[0]))))
    if is_k(t) and t.a[0] == "f64":
        return (fval(t), ())
    return (1.0, ((t, 1),))


def f32(v):
    return mk("cast", mk("cast", v, "f64", "f32"), "f32", "f64")


def loaded(p, w, bs, used, pc=1):
    """[(entities, blocks)] or a message"""
    out, seen = [], 0
    try:
        r = whole(p, bs, used, pc=pc, strict=True)
    except OutOfStep as e:
        return "the file is not understood: %s" % e
    for pc2, k, d in r:
        seen = B.OR(seen, pc2)
        if k != "ok":
            return "loading fails: %s" % show(d)[:100]
        es, bl = w.f(DR, d, vec_field(p, DR, w.ent)), w.f(DR, d, vec_field(p, DR, w.blk))
        if es.op != "vec" or bl.op != "vec":
            raise Undef("loaded entities %s" % show(es)[:80])
        out.append((es.a[0], bl.a[0]))
    if seen != pc:
        return "loading does not return (it panics)"
    return out


def write(p, ents, blocks, used, fn="save_dxb"):
    """[(pc, bytes)] or a message"""
    w = W(p)
    created = []
    it = Codec(p, hooks=opens(created))
    it.models["std::io::BufWriter::<W>::new"] = lambda it, st, fr, a, i: [(st, a[0])]
    it.models["std::io::BufWriter::<W>::with_capacity"] = lambda it, st, fr, a, i: [(st, a[1])]
    it.events_off = True
    st = State()
    st.store[it.OUT] = mk("vec", ())
    st.store[("O", "self")] = agg(p, DR, **{vec_field(p, DR, w.ent): mk("vec", tuple(ents)), vec_field(p, DR, w.blk): mk("vec", tuple(blocks))})
    target = mk("ref", ("O", "$w"), ()) if fn == "save_dxb" else mk("sym", "$path")
    out, seen = [], 0
    for s, v in it.run(public(p, fn), args=[mk("ref", ("O", "self"), ()), target], st=st):
        for s2, o in it.split(s, s.store[it.OUT]):
            for s3, x in it.split(s2, it.val(s2, v)):
                if not (x.op == "agg" and x.a[0] == RESULT and x.a[1] == 0):
                    return "saving fails: %s" % show(x)[:100]
                seen = B.OR(seen, s3.pc)
                out.append((s3.pc, o.a[0]))
    used |= it.analysed
    if fn != "save_dxb" and not created:
        raise rt.Unsupported("no file is seen to be created")
    if fn != "save_dxb" and created != [target]:
        return "the file created is %s" % [show(x) for x in created]
    return out if seen == 1 else "saving does not return (it panics)"


def round_trip(p, plan, used, block=False, both=False):
    """plan: [(kind, layer, colour, keywords)]"""
    w = W(p)
    made = [w.entity(k, l, c, **kw) for k, l, c, kw in plan]
    ents, blocks, base = [e for e, _ in made], [], None
    if block or both:
        base = (w.sym(), w.sym())
        blocks = [agg(p, w.blk, base_point=agg(p, w.pt, x=base[0], y=base[1], z=w.sym()), entities=mk("vec", tuple(ents if block else [w.entity("Line")[0]])))]
        if block:
            ents = []
    r = write(p, ents, blocks, used)
    if isinstance(r, str):
        return r
    want = [x for _, x in made if x[0] in SHAPES or x[0] == "Polyline"]
    for pc, bs in r:
        l = loaded(p, w, bs, used, pc)
        if isinstance(l, str):
            return l
        for es, bl in l:
            if block:
                if len(bl) != 1 or es:
                    return "a block is read as %d blocks and %d entities" % (len(bl), len(es))
                bp = w.f(w.blk, bl[0], "base_point")
                for d, v in zip("xy", base):
                    if w.f(w.pt, bp, d) is not f32(v):
                        return "the base point's %s is %s" % (d, show(w.f(w.pt, bp, d))[:60])
                es = w.f(w.blk, bl[0], "entities")
                if es.op != "vec":
                    raise Undef("entities of a block: %s" % show(es)[:60])
                es = es.a[0]
            elif bl:
                return "entities are read as a block"
            if len(es) != len(want):
                return "%d entities come back, expected %d" % (len(es), len(want))
            for e, x in zip(es, want):
                m = w.compare(e, x, f32, common=not block)
                if m:
                    return m
    return None


def one(n, rule, f):
    try:
        return n, rule, f()
    except (Undef, Bound, rt.Unsupported) as e:
        return n, None, str(e)[:200]


def trips(p, used):
    w = W(p)
    out = []
    P = {"closed": 1, "verts": 2}
    for k in SHAPES:
        out.append(one(k, "round trip", lambda: round_trip(p, [(k, "ab", 5, {})], used)))
        out.append(one(k + " of a block", "blocks", lambda: round_trip(p, [(k, "0", 256, {})], used, block=True)))
        out.append(one(k + " twice, between others", "round trip", lambda: round_trip(p, [("Line", "0", 256, {}), (k, "0", 256, {}), (k, "x", 1, {}), ("Circle", "x", 1, {})], used)))
    for fl in (0, 1, 128, 129, 2, 3):
        for n in (0, 1, 3):
            kw = {"closed": fl, "verts": n}
            out.append(one("Polyline with flags %d and %d vertices" % (fl, n), "round trip", lambda: round_trip(p, [("Polyline", "p", 3, kw), ("Line", "q", 4, {})], used)))
    out.append(one("Polyline of a block", "blocks", lambda: round_trip(p, [("Line", "0", 256, {}), ("Polyline", "0", 256, P), ("ModelPoint", "0", 256, {})], used, block=True)))
    out.append(one("Polyline, Seqend, Vertex", "round trip", lambda: round_trip(p, [("Polyline", "0", 256, P), ("Seqend", "0", 256, {}), ("Vertex", "0", 256, {}), ("Polyline", "0", 256, P)], used)))
    for ls in ("aaa", "aab", "aba", "abb", "abc", "aAa", ("a", "a ", " a"), ("0", "", "00"), ("l", "l2", "l")):
        out.append(one("layers %s" % (ls,), "layers and colours", lambda: round_trip(p, [(k, l, 7, {}) for k, l in zip(("Line", "Circle", "Arc"), ls)], used)))
    for cs in ((0, 0, 0), (1, 1, 1), (256, 256, 256), (1, 2, 1), (0, 3, 0), (256, 0, 256), (255, 257, 5), (5, 5, 0), (0, 5, 5)):
        for ls in ("aaa", "aba"):
            out.append(one("colours %s on layers %s" % (cs, ls), "layers and colours", lambda: round_trip(p, [(k, l, c, {}) for k, l, c in zip(("Line", "Circle", "Arc"), ls, cs)], used)))
    for c in (0, 1, 254, 255, 256, 257, -1, -5, -255, 32767, -32768):
        out.append(one("colour %d" % c, "layers and colours", lambda: round_trip(p, [("Line", "a", c, {}), ("Arc", "a", c, {})], used)))
    out.append(one("any layer name of ASCII characters", "layers and colours", lambda: round_trip(p, [("Line", txt((csym("l1", (1, 0x7F)), csym("l2", (1, 0x7F)))), 1, {})], used)))
    for k in w.names:
        if k not in SHAPES and k != "Polyline":
            for kk in ("Line",):
                out.append(one(k + " is left out", "other entities", lambda: round_trip(p, [(kk, "0", 256, {}), (k, "l", 9, {}), ("Circle", "0", 256, {})], used)))
    out.append(one("a drawing without anything", "blocks", lambda: round_trip(p, [], used)))
    out.append(one("a block without entities", "blocks", lambda: round_trip(p, [], used, block=True)))
    out.append(one("entities and blocks", "blocks", lambda: round_trip(p, [("Line", "0", 256, {}), ("Arc", "0", 256, {})], used, both=True)))

    def tofile():
        a, b = [write(p, [W(p).entity("Line")[0]], [], used, fn) for fn in ("save_dxb", "save_file_dxb")]
        return next((x for x in (a, b) if isinstance(x, str)), None) or (None if a == b else "save_file_dxb does not write what save_dxb writes")
    out.append(one("save_file_dxb", "writing files", tofile))
    return out


def items(p, used):
    """the reader, item by item"""
    out = []

    class R:
        """bytes of items and what they mean"""

        def __init__(self, mode, scale=False):
            self.bs, self.want, self.n, self.mode = HEAD, [], 0, mode
            self.sc = None
            self.layer, self.color = "0", 256
            if scale:
                self.sc = mk("sym", "scale")
            if mode == "real":
                self.bs += REAL
            if scale:
                self.bs += z(b"\x80") + num("scale", "f64")

        def val(self, angle=False, width=False):
            """a number: appended, and its value"""
            self.n += 1
            n = "n%d" % self.n
            if self.mode == "real":
                self.bs += num(n, "f32")
                return mk("cast", mk("sym", n), "f32", "f64")
            ty = "i32" if angle else "i16"
            self.bs += num(n, ty)
            v = mk("cast", mk("sym", n), ty, "f64")
            if self.sc is not None:
                v = mk("Mul", v, self.sc)
            return mk("Div", v, kf64(1000000.0)) if angle else v

        def shape(self, kind, code=None):
            self.bs += z(bytes([code or SHAPES[kind][0]]))
            geo = {c: self.val(angle="angle" in c) for c in SHAPES[kind][1]}
            for c in list(geo):
                if c.endswith(".y") and c[:-1] + "z" not in geo:
                    geo[c[:-1] + "z"] = None
            self.add(kind, geo)
            return geo

        def add(self, kind, geo):
            self.want.append((kind, geo, self.layer, self.color))

        def run(self, base=None):
            w = W(p)
            l = loaded(p, w, self.bs + z(b"\0"), used)
            if isinstance(l, str):
                return l
            for es, bl in l:
                if len(es) != len(self.want):
                    return "%d entities are read, expected %d" % (len(es), len(self.want))
                for e, x in zip(es, self.want):
                    m = w.compare(e, x, lambda v: v)
                    if m:
                        return m
            return None

    def pt(geo, n, m):
        return {n + "." + d: geo[m + "." + d] for d in "xyz"}
    for mode, scale in (("int", False), ("int", True), ("real", False), ("real", True)):
        tag = "%s numbers%s" % ("whole" if mode == "int" else "real", ", scaled" if scale else "")

        def case(n, f):
            def go():
                r = R(mode, scale)
                f(r)
                return r.run()
            out.append(one("%s: %s" % (tag, n), "items", go))
        for k in SHAPES:
            case(k, lambda r: (r.shape(k), r.shape(k)))
        case("Line3D", lambda r: r.shape("Line", 21))

        def lext(r, code, dims, first):
            g = r.shape("Line") if first else {"p2.x": None, "p2.y": None, "p2.z": None}
            for _ in range(2):
                r.bs += z(bytes([code]))
                h = {"p2." + d: r.val() for d in dims}
                h.setdefault("p2.z", None)
                h.update(pt(g, "p1", "p2"))
                r.add("Line", h)
                g = h
            r.shape("Circle")
        for first in (True, False):
            case("line extension" + ("" if first else " first"), lambda r: lext(r, 130, PT2, first))
            case("line extension 3D" + ("" if first else " first"), lambda r: lext(r, 137, PT3, first))

        def text(r, first):
            g = r.shape("Trace") if first else {c: None for c in pts(CORNERS, PT3)}
            for _ in range(2):
                r.bs += z(bytes([131]))
                h = {c: r.val() for c in pts(CORNERS[2:], PT2)}
                for c in CORNERS[2:]:
                    h[c + ".z"] = None
                h.update(pt(g, "first_corner", "third_corner"))
                h.update(pt(g, "second_corner", "fourth_corner"))
                r.add("Trace", h)
                g = h
            r.shape("Circle")
        for first in (True, False):
            case("trace extension" + ("" if first else " first"), lambda r: text(r, first))

        def width(r):
            g = r.shape("Vertex")
            r.bs += z(b"\x86")
            g["starting_width"] = r.val()
            g["ending_width"] = r.val()
            r.shape("Vertex")
        case("widths of a vertex", width)
        if mode == "real":
            def bulge(r):
                g = r.shape("Vertex")
                r.bs += z(b"\x85")
                g["bulge"] = r.val()
                r.shape("Vertex")
            case("bulge of a vertex", bulge)

        def poly(r, closed):
            r.bs += z(b"\x13" + bytes([closed, 0]))
            vs = []
            for _ in range(2):
                r.shape("Vertex")
                vs.append(r.want.pop()[1])
            r.bs += z(b"\x11")
            r.add("Polyline", {"closed": closed, "vertices": vs})
            r.shape("Line")
        if not scale:
            case("closed polyline", lambda r: poly(r, 1))
            case("open polyline", lambda r: poly(r, 0))

            def change(r):
                r.shape("Line")
                r.bs += z(b"\x81q r\0")
                r.layer = "q r"
                r.shape("Arc")
                r.bs += z(b"\x88\x07\0")
                r.color = 7
                r.shape("Circle")
                r.bs += z(b"\x81\0\x88\0\x01")
                r.layer, r.color = "", 256
                r.shape("Solid")
            case("layers and colours apply to what follows", change)

            def modes(r):
                r.shape("Line")
                r.bs += z(b"\x87\x01\0")
                r.mode = "real"
                r.shape("Line")
                r.bs += z(b"\x87\0\0")
                r.mode = "int"
                r.shape("Arc")
            case("changing the number mode", modes)

        def block(first):
            def go():
                r = R(mode, scale)
                if not first:
                    r.shape("Line")
                r.bs += z(b"\x84")
                base = (r.val(), r.val())
                r.shape("Circle")
                r.shape("Line")
                w = W(p)
                if not first:
                    try:
                        got = {k for _, k, _ in whole(p, r.bs + z(b"\0"), used, strict=True)}
                    except OutOfStep as e:
                        return str(e)
                    return None if got == {"error"} else "the file is accepted"
                l = loaded(p, w, r.bs + z(b"\0"), used)
                if isinstance(l, str):
                    return l
                for es, bl in l:
                    if len(bl) != 1 or es:
                        return "%d blocks and %d entities are read" % (len(bl), len(es))
                    b = w.f(w.blk, bl[0], "base_point")
                    for d, v in zip("xyz", base + (kf64(0.0),)):
                        if mono(w.f(w.pt, b, d)) != mono(v):
                            return "the base point's %s is %s" % (d, show(w.f(w.pt, b, d))[:60])
                    es = w.f(w.blk, bl[0], "entities").a[0]
                    if len(es) != len(r.want):
                        return "%d entities of the block, expected %d" % (len(es), len(r.want))
                    for e, x in zip(es, r.want):
                        m = w.compare(e, x, lambda v: v)
                        if m:
                            return m
                return None
            return go
        out.append(one(tag + ": block base", "items", block(True)))
        out.append(one(tag + ": block base after an entity", "malformed files", block(False)))
    # files that are not right
    good = HEAD + REAL + z(b"\x81ab\0\x88\x05\0\x80") + num("s", "f64") + z(b"\x08") + sum((num("m%d" % i, "f32") for i in range(5)), ()) + \
        z(b"\x13\x01\0\x14") + num("a", "f32") * 2 + z(b"\x86") + num("b", "f32") * 2 + z(b"\x85") + num("b", "f32") + z(b"\x11\0")

    def expect(bs, kind):
        def go():
            try:
                r = whole(p, bs, used, strict=True)
            except OutOfStep as e:
                return str(e)
            got = {k for _, k, _ in r}
            seen = 0
            for pc, _, _ in r:
                seen = B.OR(seen, pc)
            if seen != 1:
                return "load does not return (it panics)"
            return None if got == {kind} else "load gives %s" % sorted(got)
        return go
    out.append(one("a whole file", "items", expect(good, "ok")))
    for i in range(17, len(good)):
        out.append(one("a file cut after %d of %d bytes" % (i, len(good)), "malformed files", expect(good[:i], "error")))
    known = {0, 1, 2, 3, 8, 9, 11, 17, 19, 20, 21, 22} | set(range(128, 138))
    for b in range(256):
        if b not in known:
            out.append(one("item type %d" % b, "malformed files", expect(HEAD + z(bytes([b])) + z(b"\0" * 80), "error")))
    for n, b in (("bulge", b"\x85"), ("width", b"\x86")):
        out.append(one(n + " before any entity", "malformed files", expect(HEAD + z(b + b"\0" * 8), "error")))
        out.append(one(n + " after an entity that is no vertex", "malformed files", expect(HEAD + z(b"\x02" + b"\0" * 4 + b + b"\0" * 8), "error")))
    out.append(one("a second block base", "malformed files", expect(HEAD + z((b"\x84" + b"\0" * 4) * 2 + b"\0"), "error")))
    for i, b in ((17, 0x1B), (18, 1)):
        out.append(one("a wrong byte %d" % i, "malformed files", expect(HEAD[:i] + z(bytes([b])) + HEAD[i + 1:] + z(b"\0"), "error")))
    return out


def run(p, rep):
    rep.rule = ("save_dxb and load interpreted abstractly: entities with symbolic coordinates are written to bytes and read back (all kinds; layers and colours changing; blocks; other kinds "
                "left out); every item type read from bytes of symbolic numbers in both number modes; files cut at any byte and item types that do not exist are errors")

    def go(i):
        used = set()
        return ((trips, items)[i](p, used), used)
    for i, r, err in pmap(go, range(2)):
        if err:
            report.und("UNDECIDED %s: %s" % (("round trips", "items")[i], err.strip().splitlines()[-1][:300]))
            continue
        rep.functions |= r[1]
        for n, rule, msg in r[0]:
            if rule is None:
                report.und("UNDECIDED %s: %s" % (n, msg))
            else:
                rep.check(msg is None, rule, n, WHERE, "%s: %s" % (n, msg))
    for r, n in (("round trip", 15), ("blocks", 6), ("layers and colours", 10), ("items", 30), ("malformed files", 100)):
        rep.floor(r, n)
