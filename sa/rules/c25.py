"""Entities that are followed by entities of their own come back whole, and so do their neighbours."""
import itertools
import records
import report
import sections
from par import pmap
from sections import *

KINDS = {"L": "Line", "I": "Insert", "i": "Insert", "A": "Attribute", "D": "AttributeDefinition", "P": "Polyline", "V": "Vertex", "S": "Seqend", "M": "MText"}
# longer sequences: two composites in a row, children that are not theirs, nesting
LONG = ("IAAS", "IAMAS", "IAMAMS", "IAVS", "PVVS", "PVVSV", "PVAVS", "IASPVS", "PVSIAS", "IAIAS", "PVPVS", "AMM", "AMAM", "DMDM", "DMM", "IAMMS", "PVMS", "iAS", "iSS", "ISS", "PSS", "IASS", "PVSS", "LAML",
        "IDAS", "IADS", "IMAS", "PMVS", "IAMSM", "PVSM", "IALAS", "PVLVS", "ILS", "PLS", "AIAS", "DPVS", "MIAS", "SIAS", "VPVS", "IASAM", "PVVVVS", "IAAAAS", "IAMAMAMS")


def rec(p, k, n):
    """the n-th record of the sequence: an entity of kind k with fields of its own"""
    T = KINDS[k]
    vix = p.variant_ix(ET, T)
    fs = p.adts[ET]["variants"][vix][2]
    adt = fs[0][1][1]
    body = []
    for f in p.adts[adt]["variants"][0][2]:
        v = mk("sym", "%s%d.%s" % (k, n, f[0]))
        if f[0] == "__has_attributes":
            v = TRUE if k == "I" else FALSE
        elif f[0] in ("__attributes_and_handles", "__vertices_and_handles"):
            v = EMPTY
        body.append(v)
    ct = [f[1] for f in p.adts[ENT]["variants"][0][2] if f[0] == "common"][0][1]
    common = mk("agg", ct, 0, tuple(mk("sym", "%s%d.common.%s" % (k, n, f[0])) for f in p.adts[ct]["variants"][0][2]))
    return mk("agg", ENT, 0, (common, mk("agg", ET, vix, (mk("agg", adt, 0, tuple(body)),))))


def body_of(p, r, **kw):
    b = r.a[2][1].a[2][0]
    fs = [f[0] for f in p.adts[b.a[0]]["variants"][0][2]]
    if not kw:
        return b, fs
    nb = mk("agg", b.a[0], 0, tuple(kw.get(n, x) for n, x in zip(fs, b.a[2])))
    return mk("agg", ENT, 0, (r.a[2][0], mk("agg", ET, r.a[2][1].a[1], (nb,))))


def handle_of(p, r):
    c = r.a[2][0]
    return c.a[2][[f[0] for f in p.adts[c.a[0]]["variants"][0][2]].index("handle")]


def expected(p, seq, recs):
    """the entities the sequence of records stands for"""
    out, i = [], 0
    none = mk("agg", "handle::Handle", 0, (kint("u64", 0),))

    def att(i):
        r = recs[i]
        if i + 1 < len(seq) and seq[i + 1] == "M":
            return body_of(p, r, m_text=body_of(p, recs[i + 1])[0]), i + 2
        return r, i + 1
    while i < len(seq):
        k, r = seq[i], recs[i]
        if k in "AD":
            r, i = att(i)
        elif k in "IP":
            i += 1
            kids = []
            while i < len(seq) and seq[i] == ("A" if k == "I" else "V"):
                h = handle_of(p, recs[i])
                c, i = att(i) if k == "I" else (recs[i], i + 1)
                kids.append(mk("agg", "()", 0, (body_of(p, c)[0], h)))
            h = none
            if i < len(seq) and seq[i] == "S":
                h = handle_of(p, recs[i])
                i += 1
            r = body_of(p, r, __seqend_handle=h, **{"__attributes_and_handles" if k == "I" else "__vertices_and_handles": mk("vec", tuple(kids))})
        else:
            i += 1
        out.append(r)
    return out


class SeqFeed(SecFeed):
    plain = False


def sequence(p, seq):
    """None or what is wrong with the entities read from the records"""
    recs = [rec(p, k, n) for n, k in enumerate(seq)]

    def pr(code, x):
        return ("pair", 1, mkpair(p, code, x))
    frame = [pr(0, kstr("SECTION")), pr(2, kstr("ENTITIES"))] + [pr(0, mk(ENTNAME, r)) for r in recs] + [pr(0, kstr("ENDSEC"))]
    fd = SeqFeed(p, frame, hooks=sec_hooks(p), tail=[mkpair(p, 0, kstr("EOF"))])
    s = fd.start()
    s.store[("O", "iter")] = mk("sym", "iter")
    s.store[("O", "drawing")] = fresh(p, len(versions(p)) - 1)
    ix = [k for k, f in enumerate(p.adts[DR]["variants"][0][2]) if f[0] == "__entities"][0]
    want = expected(p, seq, recs)
    for s, ret in fd.run(method(p, DR, "read_sections"), st=s):
        if not (ret.op == "agg" and ret.a[0] == RESULT and ret.a[1] == 0):
            return "reading fails"
        v = listed(fd, fd.val(s, s.store[("O", "drawing")].a[2][ix]))
        for g, x in v.a[0] if v.op == "phi" else ((1, v),):
            if not B.AND(g, s.pc):
                continue
            if x.op != "vec":
                raise Unsupported("entities read: %s" % show(x)[:80])
            if len(x.a[0]) != len(want):
                return "%d entities are read instead of %d" % (len(x.a[0]), len(want))
            for n, (a, b) in enumerate(zip(x.a[0], want)):
                if a is not b:
                    return "entity %d is not the one written" % n + diff(p, a, b)
    return None


def diff(p, a, b):
    if a.op != "agg" or a.a[0] != b.a[0] or a.a[1] != b.a[1]:
        return ": %s" % show(a)[:100]
    if a.a[0] == "()":
        names = [str(k) for k in range(len(a.a[2]))]
    else:
        v = p.adts.get(a.a[0])
        names = [f[0] for f in v["variants"][a.a[1]][2]] if v else [str(k) for k in range(len(a.a[2]))]
    for n, x, y in zip(names, a.a[2], b.a[2]):
        if x is not y:
            return " " + n + (diff(p, x, y) if x.op == y.op == "agg" else ": %s instead of %s" % (show(x)[:80], show(y)[:80]))
    return ""


def sequences():
    out = [""]
    for n in (1, 2, 3):
        out += ["".join(x) for x in itertools.product("LIiADPVSM", repeat=n)]
    return out + [x for x in LONG if len(x) > 3]


def run(p, rep):
    rep.rule = ("the pairs of an INSERT with attributes, a POLYLINE with vertices, an ATTRIB/ATTDEF with its MTEXT (and two plain entities for comparison), placed "
                "between two arbitrary other entities, are fed to the crate's section reader: exactly three entities must come back, the neighbours unchanged, "
                "the middle one with every field, child, child field, child handle and SEQEND handle equal, except where the reviewed table says otherwise; "
                "and every sequence of up to three records of nine kinds (and longer ones) is read as the entities it stands for")
    rep.assume += ["child records (VERTEX, ATTRIB, MTEXT, SEQEND) are read back as written (C06)", "handles are assigned (non-zero) before a drawing is saved"]
    for n in sections.NESTED:
        r = sections.nested(p, n)
        records.one(p, rep, "composite", n, r, "nested", {})
    for T in sections.NESTED:
        orig, items, it = sections.T_items(p, T)
        for n, what, msg in sections.passed(p, it, items, sections.VS):
            rep.check(msg is None, "parts are written as the entity is", "%s %s %s" % (T, n, what), T, msg)
    for q, msg, e in pmap(lambda q: sequence(p, q), sequences()):
        name = " ".join(KINDS[k].upper() + ("(66)" if k == "I" else "") for k in q)
        if e:
            report.und("UNDECIDED sequence %s: %s" % (q, e.strip().splitlines()[-1][:160]))
            rep.count("undecided")
            continue
        rep.check(msg is None, "sequence of records", q or "none", "entity_iter::collect_entities", "records %s: %s" % (name, msg), name)
    rep.floor("composite records decided", 6)
    rep.floor("composite field and version", 2000)
