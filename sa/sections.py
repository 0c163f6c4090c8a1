"""Write-then-read verdicts for whole sections: the framing of records, blocks, classes and nested entities.

The records inside (entities, objects, x data, extension groups), whose own pairs other checks decide, are written
as one opaque pair that names them; reading that pair gives the record back."""
from rtrip import *
import rt

ENTNAME, OBJNAME = "entname", "objname"
# names a record type string never has
RESERVED = ("ENDSEC", "ENDBLK", "ENDTAB", "EOF", "SECTION", "BLOCK", "TABLE")
NEST = ("Attribute", "AttributeDefinition", "Insert", "Polyline", "Seqend", "MText", "Vertex")


def opaque_records(b):
    return opaque_parts(b) or b.name in ("generated::entities::Entity::add_code_pairs", "generated::objects::Object::add_code_pairs") or \
        (b.method == "add_code_pairs" and b.self_ty and b.self_ty[0] == "adt" and b.self_ty[1] in (ENT, OBJ))


def recordname(t):
    v = payload_of(t)
    return v if v is not None and v.op in (ENTNAME, OBJNAME) else None


def payload_of(pr):
    if pr is not None and pr.op == "agg" and pr.a[0] == CP and pr.a[2][1].op == "agg" and pr.a[2][1].a[2]:
        return pr.a[2][1].a[2][0]
    return None


class SecFeed(TableFeed):
    plain = True        # records in lists are not of the kinds that swallow their successors

    def sub_pair(self, i):
        x = i[3][0]
        if i[2].endswith("add_code_pairs") and not opaque_name(i[2]):
            b = i[4]["atys"][0] if len(i) > 4 else None
            if b is not None and mentions(b, OBJ):
                return mkpair(self.p, 0, mk(OBJNAME, x))
            if b is not None and mentions(b, ENT):
                return mkpair(self.p, 0, mk(ENTNAME, x))
            if b is not None and mentions(b, HDR):
                return mkpair(self.p, 9, mk("hdrname", x))
        return super().sub_pair(i)

    def premise(self, pair):
        g = super().premise(pair)
        v = payload_of(pair)
        if v is None:
            return g
        if v.op in (ENTNAME, OBJNAME) or (v.op == "fld" and v.a[2] == "record_name"):
            for k in RESERVED:
                g = B.AND(g, B.NOT(B.var(mk("eq", v, kstr(k)))))
        if v.op == ENTNAME and self.plain and v.a[0].op != "agg":
            d = mk("discr", mk("fld", v.a[0], "", "specific"))
            for n in NEST:
                g = B.AND(g, B.NOT(B.var(mk("eq", d, kint("d", self.p.variant_ix(ET, n))))))
        return g


def h_read_record(op):
    """Entity::read / Object::read: the record behind the next pair; nothing at the end of the section or block"""
    def h(it, st, fr, args, info):
        st.store[("O", "$recpos")] = kint("pos", it.pos(st))
        st.store[("O", "$rec")] = UNINIT
        if not any(x[1] is not None and recordname(x[1]) is not None for x in it.alternatives(it.pos(st), st.pc)):
            return None
        out = []
        for s, r in it.h_next(it, st, fr, args, info):
            pr = s.store[("O", "$lastpair")]
            v = recordname(pr) if r is not NONE else None
            if v is not None and v.op == op:
                s.store[("O", "$rec")] = v.a[0]
                out.append((s, ok(some(v.a[0]))))
            elif r is not NONE and payload_of(pr) in (kstr("ENDSEC"), kstr("ENDBLK")):
                s.store[POS] = s.store[("O", "$last")]
                s.store[("O", "$peek")] = FALSE
                out.append((s, ok(NONE)))
            else:
                raise Unsupported("the record reader is handed %s" % (show(pr)[:80] if r is not NONE else "the end of the input"))
        return out
    return h


# an iterator of records wrapped in itertools::PutBack: putting a record back rewinds to where it starts
PB = "itertools::PutBack"


def h_pb_new(it, st, fr, args, info):
    return [(st, mk("agg", PB, 0, (args[0],)))]


def inner_iter(it, t, d=0):
    """body of Iterator::next of the crate's own iterator inside type t"""
    if t[0] == "ref":
        return inner_iter(it, t[1], d)
    if t[0] != "adt" or d > 5:
        return None
    for b in it.p.bodies.values():
        if b.method == "next" and b.trait and b.trait.endswith("Iterator") and b.self_ty and b.self_ty[:2] == ("adt", t[1]) and t[1] != PUTBACK:
            return b
    for x in t[2:]:
        if isinstance(x, tuple) and x:
            r = inner_iter(it, x, d + 1)
            if r:
                return r
    return None


def h_pb_next(it, st, fr, args, info):
    b = inner_iter(it, info["atys"][0])
    if b is None:
        raise Unsupported("PutBack over %s" % (info["atys"][0],))
    v = it.val(st, args[0])
    x = v.a[2][0] if v.op == "agg" and v.a[0] == PB else mk("sym", "inner")
    while x.op == "ref" and it.read_path(st, x.a[0], x.a[1]).op == "ref":
        x = it.read_path(st, x.a[0], x.a[1])
    if x.op != "ref":
        loc = ("L", ("pb", fr.ctx, info["bb"]), 0)
        st.store[loc] = x
        x = mk("ref", loc, ())
    return it.inline(st, fr, info["bb"], b, [x], {}, info["span"])


def h_pb_put(it, st, fr, args, info):
    rp, rec = st.store.get(("O", "$recpos")), st.store.get(("O", "$rec"))
    x = it.val(st, args[1])
    if rp is None or rp.op != "k" or not (x.op == "agg" and x.a[0] == RESULT and x.a[1] == 0 and (rec is UNINIT or it.val(st, x.a[2][0]) is rec)):
        raise Unsupported("put_back of something other than the last record in %s" % fr.body.name)
    it.setpos(st, rp.a[1])
    st.store[("O", "$peek")] = FALSE
    return [(st, UNIT)]


def h_keep(it, st, fr, args, info):
    """a key already present or not: handles of read records are not empty"""
    return [(st, FALSE)]


def sec_hooks(p):
    hk = dict(HR)
    hk["handle::Handle::is_empty"] = h_false
    for op, adt in ((ENTNAME, ENT), (OBJNAME, OBJ)):
        b = method(p, adt, "read")
        hk[b.name] = hk[b.key] = h_read_record(op)
    hk["itertools::put_back"] = h_pb_new
    hk["<itertools::PutBack<I> as std::iter::Iterator>::next"] = h_pb_next
    hk["itertools::PutBack::<I>::put_back"] = h_pb_put
    return hk


def fresh(p, vi=None):
    flds = p.adts[DR]["variants"][0][2]
    h = mk("sym", "hdr2")
    if vi is not None:
        hf = [f[0] for f in p.adts[HDR]["variants"][0][2]]
        ver = mk("agg", "enums::AcadVersion", vi, ())
        h = mk("agg", HDR, 0, tuple(ver if n == "version" else mk("fld", mk("sym", "hdr2"), "", n) for n in hf))
    return mk("agg", DR, 0, tuple(h if f[0] == "header" else NONE if f[0] == "thumbnail" else EMPTY for f in flds))


def emission(p, name):
    orig = mk("sym", "it")
    st = State()
    st.store[("O", "self")] = orig
    w = method(p, DR, name)
    return emit(p, w, st=st, opaque=opaque_records, hooks=HW, posint=layer_color)


SECTIONS = {"CLASSES": ("add_classes_pairs", "classes", "class::Class"), "BLOCKS": ("add_blocks_pairs", "__blocks", "block::Block"),
            "ENTITIES": ("add_entities_pairs", "__entities", None), "OBJECTS": ("add_objects_pairs", "__objects", None)}
NESTED = ("Attribute", "AttributeDefinition", "Insert", "Polyline", "Line", "Text")


def section(p, name, fname, read=True, transform=None):
    """writer `name`, list field `fname` -> dict(rows, wfns)"""
    orig = mk("sym", "it")
    types = {orig: ("adt", DR)}
    it, items, _ = emission(p, name)
    rd = method(p, DR, "read_sections")
    vs = mk("fld", mk("fld", orig, "", "header"), "", "version")
    flds = p.adts[DR]["variants"][0][2]
    ix = [k for k, f in enumerate(flds) if f[0] == fname][0]
    hk = sec_hooks(p)
    jobs = []
    V = versions(p)
    for vi, vn in enumerate(V):
        f = at_version(vs, vi)
        jobs.append((vi, restrict(items, lambda a: True if a is WH else f(a))))
    lst = mk("fld", orig, "", fname)

    def one(k):
        vi, its = jobs[k]
        if not its:
            return dict(notes=["not written"], verdicts={}, fns=[])
        if not read:
            return dict(notes=[], verdicts={}, fns=[], wire=sorted(wire(p, its)))

        def prep(fd, s):
            s.store[("O", "drawing")] = fresh(p, vi)

        def unwrap(fd, s, x, c):
            d = s.store[("O", "drawing")]
            rv = fd.val(s, d.a[2][ix])
            if known_empty(s.pc, lst):
                return None if rv is EMPTY else "wrong: an empty list does not read back empty"
            c.same(rv, lst, s.pc, fname)
            return None if fd.pos(s) == fd.endpos else "stops: the reader stops at pair %d of %d" % (fd.pos(s), fd.endpos)
        d = trip(p, rd, transform(its) if transform else its, orig, types, unwrap, feed=SecFeed, hooks=hk, prep=prep, tail=[mkpair(p, 0, kstr("EOF"))])
        d["wire"] = sorted(wire(p, its))
        return d
    rows = []
    for k, d, err in sorted(pmap(one, range(len(jobs))), key=lambda x: x[0]):
        if err:
            d = dict(notes=["unsupported: " + err.strip().splitlines()[-1]], verdicts={}, fns=[])
        d["versions"] = [V[k]]
        d.setdefault("wire", [])
        rows.append(d)
    return dict(rows=rows, wfns=sorted(it.analysed))


# ------------------------------------------------------------------ entities followed by entities of their own
def written(p, T, vi):
    """does version vi write entity type T at all"""
    return bool(restrict(T_items(p, T)[1], lambda a: at_version(VS, vi)(a)))


_ti = {}


def T_items(p, T):
    r = _ti.get(T)
    if r is None:
        vix = p.variant_ix(ET, T)
        flds = p.adts[ET]["variants"][vix][2]
        orig = mk("agg", ENT, 0, (mk("sym", "common"), mk("agg", ET, vix, (mk("sym", "it"),) if flds else ())))
        st = State()
        st.store[("O", "self")] = orig
        it, items, _ = emit(p, method(p, ENT, "add_code_pairs"), st=st, opaque=opaque_parts, hooks=HW)
        r = _ti[T] = (orig, items, it)
    return r


class NestFeed(SecFeed):
    vi = None

    def flatten(self, items):
        """an ATTRIB/ATTDEF written as part of another entity is its own pairs, then the MTEXT it carries"""
        out = []
        for i in items:
            if i[0] == "sub" and not opaque_name(i[2]) and i[3][0].op == "agg" and i[3][0].a[0] == ENT:
                sp = i[3][0].a[2][1]
                vn = self.p.variant(ET, sp.a[1]) if sp.op == "agg" else None
                if vn in ("Attribute", "AttributeDefinition"):
                    a = sp.a[2][0]
                    adt = self.p.adts[ET]["variants"][sp.a[1]][2][0][1][1]
                    ix = [k for k, f in enumerate(self.p.adts[adt]["variants"][0][2]) if f[0] == "m_text"][0]
                    m = self.get_field(a, adt, None, ix)
                    bare = self.set_field(a, adt, None, ix, mk("call", "MText::default", mk("site", 0, "MText"), ()))
                    e1 = mk("agg", ENT, 0, (i[3][0].a[2][0], mk("agg", ET, sp.a[1], (bare,))))
                    out.append(i[:3] + ((e1,) + tuple(i[3][1:]),) + i[4:])
                    if written(self.p, "MText", self.vi):
                        mt = mk("agg", ENT, 0, (mk("sym", "mtext_common"), mk("agg", ET, self.p.variant_ix(ET, "MText"), (m,))))
                        out.append(i[:3] + ((mt,) + tuple(i[3][1:]),) + i[4:])
                    continue
            out.append(i)
        super().flatten(self.seqend(out))

    def seqend(self, items):
        """the pairs of a SEQEND written as part of another entity are one record"""
        out, cur = [], None
        for i in items:
            if i[0] == "pair" and pair_code(i[2]) == 0:
                if payload_of(i[2]) is kstr("SEQEND"):
                    cur = len(out)
                    out.append(("pair", i[1], mkpair(self.p, 0, mk(ENTNAME, self.seq_ent(NONE)))))
                    continue
                cur = None
            elif i[0] != "pair":
                cur = None
            if cur is not None and pair_code(i[2]) == 5:
                out[cur] = ("pair", out[cur][1], mkpair(self.p, 0, mk(ENTNAME, self.seq_ent(payload_of(i[2])))))
            elif cur is not None and pair_code(i[2]) in (100, 8):
                continue
            else:
                if cur is not None:
                    raise Unsupported("SEQEND with code %s" % pair_code(i[2]))
                out.append(i)
        return out

    def seq_ent(self, h):
        ct = [f[1] for f in self.p.adts[ENT]["variants"][0][2] if f[0] == "common"][0][1]
        fs = [f[0] for f in self.p.adts[ct]["variants"][0][2]]
        hv = h.a[0] if h.op == "hexstr" else mk("agg", "handle::Handle", 0, (kint("u64", 0),)) if h is NONE else mk("unhex", h)
        c = mk("agg", ct, 0, tuple(hv if n == "handle" else mk("fld", mk("sym", "seqend_common"), "", n) for n in fs))
        return mk("agg", ENT, 0, (c, mk("agg", ET, self.p.variant_ix(ET, "Seqend"), (mk("sym", "seqend"),))))


def listed(it, v):
    """a list rebuilt element by element is that list"""
    while v.op == "appmap" and v.a[0] is EMPTY and (v.a[2] is it.get_elem(v.a[1], v.a[3]) or v.a[2] is mk("idx", v.a[1], v.a[3])):
        v = v.a[1]
    return v


def nested(p, T):
    """entity type T between two plain entities -> dict(rows, wfns)"""
    orig, items, it = T_items(p, T)
    V = versions(p)
    rd = method(p, DR, "read_sections")
    flds = p.adts[DR]["variants"][0][2]
    ix = [k for k, f in enumerate(flds) if f[0] == "__entities"][0]
    hk = sec_hooks(p)
    vix = p.variant_ix(ET, T)
    types = {mk("sym", "common"): [f[1] for f in p.adts[ENT]["variants"][0][2] if f[0] == "common"][0], mk("sym", "it"): p.adts[ET]["variants"][vix][2][0][1]}

    def pr(code, x):
        return ("pair", 1, mkpair(p, code, x))

    def one(vi):
        its = restrict(items, lambda a: True if a is WH else at_version(VS, vi)(a))
        if not its:
            return dict(notes=["not written"], verdicts={}, fns=[])
        frame = [pr(0, kstr("SECTION")), pr(2, kstr("ENTITIES")), pr(0, mk(ENTNAME, mk("sym", "before")))] + its + \
            [pr(0, mk(ENTNAME, mk("sym", "after"))), pr(0, kstr("ENDSEC"))]
        feed = type("F", (NestFeed,), {"vi": vi})

        def prep(fd, s):
            s.store[("O", "drawing")] = fresh(p, vi)

        def unwrap(fd, s, x, c):
            rv = listed(fd, fd.val(s, s.store[("O", "drawing")].a[2][ix]))
            alts = rv.a[0] if rv.op == "phi" else ((1, rv),)
            for g, v in alts:
                g = B.AND(g, s.pc)
                if not g:
                    continue
                if v.op != "vec" or len(v.a[0]) != 3:
                    return "lost: the entities read back are %s" % ("%d instead of 3" % len(v.a[0]) if v.op == "vec" else show(v)[:100])
                if v.a[0][0] is not mk("sym", "before") or v.a[0][2] is not mk("sym", "after"):
                    return "lost: a neighbour of the entity does not come back"
                c.same(v.a[0][1], orig, g, "")
                if T == "Insert" and c.lens and not any(c.lens.values()):
                    c.res = [r for r in c.res if "__seqend_handle" not in r[0]]      # an INSERT without attributes has no SEQEND
            return None if fd.pos(s) == fd.endpos else "stops: the reader stops at pair %d of %d" % (fd.pos(s), fd.endpos)
        return trip(p, rd, frame, orig, types, unwrap, feed=feed, hooks=hk, prep=prep, tail=[mkpair(p, 0, kstr("EOF"))])
    rows = []
    for k, d, err in sorted(pmap(one, range(len(V))), key=lambda x: x[0]):
        if err:
            d = dict(notes=["unsupported: " + err.strip().splitlines()[-1]], verdicts={}, fns=[])
        d["versions"] = [V[k]]
        d["wire"] = []
        rows.append(d)
    return dict(rows=rows, wfns=sorted(it.analysed))


def passed(p, it, items, vterm):
    """[(writer, where, what is wrong or None)]: the parts of a record are written for the same version, with handles exactly when the record itself is"""
    out = []
    st = State()
    for i, _ in flatten_pairs(items):
        if i[0] != "sub" or len(i) < 5:
            continue
        for t, x in zip(i[4]["atys"], i[3]):
            if t[:2] == ("adt", "enums::AcadVersion"):
                alts = x.a[0] if x.op == "phi" else ((1, x),)
                bad = [v for g, v in alts if v is not vterm and B.AND(g, i[1])]
                out.append((i[2], "version", "a part is written for the version %s" % show(bad[0])[:60] if bad else None))
            elif t == ("bool",) or t[0] == "bool":
                g = it.bdd(st, x)
                d = B.AND(i[1], B.OR(B.AND(g, B.NOT(B.var(WH))), B.AND(B.NOT(g), B.var(WH))))
                out.append((i[2], "handles", "handles are written when %s" % B.show(g, 2)[:120] if d else None))
    return out
