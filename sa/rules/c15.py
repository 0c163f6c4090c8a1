"""What is written is a well-formed DXF file: sections, tables and blocks open and close in pairs and in order, EOF ends it."""
from collections import Counter
from sections import *

ORDER = ["HEADER", "CLASSES", "TABLES", "BLOCKS", "ENTITIES", "OBJECTS", "THUMBNAILIMAGE"]
WORDS = {"SECTION", "ENDSEC", "TABLE", "ENDTAB", "BLOCK", "ENDBLK", "EOF"}


class Bad(Exception):
    pass


def step(s, code, val, rec):
    """automaton of a DXF file; val is a constant or None, rec is the kind of an opaque record"""
    m = s[0]
    if m == "out":
        if code == 0 and val == "SECTION":
            return ("name", s[1])
        if code == 0 and val == "EOF":
            return ("eof",)
        raise Bad("%s between sections" % what(code, val, rec))
    if m == "eof":
        raise Bad("%s after EOF" % what(code, val, rec))
    if m == "name":
        if code != 2 or val not in ORDER:
            raise Bad("%s where a section name is expected" % what(code, val, rec))
        if ORDER.index(val) <= s[1]:
            raise Bad("section %s is out of order" % val)
        return ("in", val)
    if m == "in":
        k = s[1]
        if code == 0 and val == "ENDSEC":
            return ("out", ORDER.index(k))
        if k == "TABLES" and code == 0 and val == "TABLE":
            return ("tname",)
        if k == "BLOCKS" and code == 0 and val == "BLOCK":
            return ("block",)
        if code == 0 and val in WORDS:
            raise Bad("%s inside section %s" % (what(code, val, rec), k))
        if rec:
            if (k, rec) in (("ENTITIES", "entity"), ("OBJECTS", "object")):
                return s
            raise Bad("%s inside section %s" % (rec, k))
        if k == "CLASSES" or (code != 0 and k in ("HEADER", "THUMBNAILIMAGE")):
            return s
        raise Bad("%s inside section %s" % (what(code, val, rec), k))
    if m == "tname":
        if code == 2 and val is not None:
            return ("table", val)
        raise Bad("%s where a table name is expected" % what(code, val, rec))
    if m == "table":
        if code == 0 and val == "ENDTAB":
            return ("in", "TABLES")
        if code == 0 and val != s[1]:
            raise Bad("%s inside table %s" % (what(code, val, rec), s[1]))
        if rec and rec != "data":
            raise Bad("%s inside table %s" % (rec, s[1]))
        return s
    if m == "block":
        if code == 0 and val == "ENDBLK":
            return ("endblk",)
        if (code == 0 and not rec) or rec == "object":
            raise Bad("%s inside a block" % what(code, val, rec))
        return s
    if m == "endblk":
        if code == 0 and val == "BLOCK":
            return ("block",)
        if code == 0 and val == "ENDSEC":
            return ("out", ORDER.index("BLOCKS"))
        if code == 0 or rec in ("entity", "object"):
            raise Bad("%s after ENDBLK" % what(code, val, rec))
        return s
    raise Bad(m)


def what(code, val, rec):
    return rec if rec else "pair %s/%s" % (code, val if val is not None else "...")


class Walk:
    def __init__(self, p, rep, vn, where):
        self.p, self.rep, self.vn, self.where = p, rep, vn, where
        self.seen = Counter()

    def items(self, items, S):
        for i in items:
            S = self.loop(i, S) if i[0] == "loop" else self.one(i, S)
        return S

    def one(self, i, S):
        if i[0] == "pair":
            c, pl = pair_code(i[2]), payload_of(i[2])
            code, val, rec = c, fval(pl) if pl is not None and is_k(pl) else None, None
        else:
            t = i[4]["atys"][0] if len(i) > 4 else None
            rec = "data" if opaque_name(i[2]) else "entity" if t and mentions(t, ENT) else "object" if t and mentions(t, OBJ) else "data"
            code, val = (0, None) if rec != "data" else (None, None)
        out = {}
        for s, g in S.items():
            h = B.AND(g, i[1])
            k = B.AND(g, B.NOT(i[1]))
            if k:
                out[s] = B.OR(out.get(s, 0), k)
            if h:
                try:
                    n = step(s, code, val, rec)
                    self.rep.ok("structural step")
                except Bad as e:
                    n = s
                    self.rep.bad("structure", "%s: %s" % (self.vn, e), self.where, "in version %s the file contains %s" % (self.vn, e))
                self.seen[(s[0], code if code == 0 else "", val if code == 0 else "")] += 1
                out[n] = B.OR(out.get(n, 0), h)
        return out

    def loop(self, i, S):
        R = self.items(i[4], dict(S))
        for s, g in R.items():
            inv = S.get(s, 0)
            # an iteration must leave the automaton where it started (block records may end in the other 'between blocks' state)
            if B.AND(g, B.NOT(inv)) and not (s == ("endblk",) and ("in", "BLOCKS") in S):
                self.rep.bad("structure", "%s: loop leaves %s open" % (self.vn, s[0]), self.where, "in version %s a record of %s does not end in the state it started in: %s" % (self.vn, show(i[2])[:60] if i[2] is not None else "a loop", s))
            elif B.AND(g, B.NOT(inv)):
                # second iteration from there
                R2 = self.items(i[4], {s: g})
                if set(R2) - {s}:
                    self.rep.bad("structure", "%s: second record" % self.vn, self.where, "in version %s a second record of a list does not fit" % self.vn)
                S = dict(S)
                S[s] = B.OR(S.get(s, 0), g)
            else:
                self.rep.ok("loop invariant")
        return S


def run(p, rep):
    rep.rule = ("typestate over the pairs the whole-file writer can emit, per version and for all conditions: SECTION/ENDSEC, TABLE/ENDTAB and BLOCK/ENDBLK alternate, each section "
                "has one of the seven names and they come in the standard order, a table holds only entries of its own kind, entities and objects stand in their sections "
                "or in blocks, every list element leaves the state it found, and a successful save ends with exactly one EOF; the saver hands every pair, in order and unconditionally, to the pair writer")
    cands = [b for b in p.bodies.values() if b.isfn and b.self_ty == ("adt", DR) and b.locals[0][:2] == ("adt", RESULT) and b.locals[0][2][:2] == ("adt", "std::vec::Vec") and mentions(b.locals[0], CP)]
    if len(cands) > 1:
        inner = {k for b in cands for k in p.callees(b)}
        cands = [b for b in cands if b.key not in inner]
    if len(cands) != 1:
        raise Unsupported("%d methods of Drawing return the pairs of the whole file" % len(cands))
    w = cands[0]
    orig = mk("sym", "it")
    st = State()
    st.store[("O", "self")] = orig
    it, _, ret = emit(p, w, st=st, opaque=opaque_records, hooks=HW, posint=layer_color)
    rep.functions |= it.analysed
    loc = Counter(e.d.get("loc") for e in it.events if e.kind == "push" and e.d["val"].op == "agg" and e.d["val"].a[0] == CP).most_common(1)[0][0]
    items = tree(it, loc=loc)
    okg = 0
    for s, r in ret:
        if not (r.op == "agg" and r.a[0] == RESULT and r.a[1] == 1):
            okg = B.OR(okg, s.pc)
    okg = B.exists(okg, is_hasnext)
    vs = mk("fld", mk("fld", orig, "", "header"), "", "version")
    for vi, vn in enumerate(versions(p)):
        f = at_version(vs, vi)
        its = restrict(items, f)
        wk = Walk(p, rep, vn, w.name)
        S = wk.items(its, {("out", -1): 1})
        fin = B.restrict(okg, f)
        for s, g in S.items():
            rep.check(s == ("eof",) or B.AND(g, fin) == 0, "file end", "%s: ends in state %s" % (vn, s[0]), w.name, "in version %s a successful save ends in state %s instead of after EOF" % (vn, s), sample=vn)
        for k in ("SECTION", "ENDSEC", "TABLE", "ENDTAB", "BLOCK", "ENDBLK", "EOF"):
            rep.count(k, sum(n for a, n in wk.seen.items() if a[2] == k))
    saver(p, rep, w)
    for k, n in (("SECTION", 80), ("ENDSEC", 80), ("TABLE", 100), ("ENDTAB", 100), ("BLOCK", 15), ("ENDBLK", 15), ("EOF", 15)):
        rep.floor(k, n)


def saver(p, rep, w):
    """the functions that write the pairs of a file write all of them"""
    wr = [b for b in p.bodies.values() if b.isfn and b.argc == 2 and takes_pair(b) and b.self_ty and b.self_ty[0] == "adt" and b.self_ty[1].endswith("CodePairWriter") and not b.trait]
    top = None
    for b in wr:
        if b.method == "write_code_pair" or len(wr) == 1:
            top = b
    callers = {b.key: b for b in p.bodies.values() if b.isfn and b.key != w.key and any(c == w.key for c in p.callees(b))}
    rep.count("savers", len(callers))
    rep.floor("savers", 1)
    for b in callers.values():
        if "test" in b.name:
            continue
        it = Interp(p, opaque=lambda x: x.key == w.key or x in wr or (x.self_ty and x.self_ty[0] == "adt" and x.self_ty[1].endswith("CodePairWriter")))
        it.run(b)
        rep.functions |= it.analysed
        got = False
        for e in it.events:
            if e.kind == "call" and any(t[0] == "ref" and t[1][:2] == ("adt", CP) for t in e.d["info"]["atys"]):
                g = B.exists(e.guard, is_hasnext)
                # the only condition is that nothing failed so far
                bad = [a for a in B.support(g) if not result_atom(a)]
                el = [v for v in e.d["vals"] if v.op == "idx"]
                rep.check(not bad and e.loops and el and len(e.loops) == 1, "every pair written", b.name + ("" if not bad else " conditional"), b.name,
                          "the pair writer is only called when %s" % [show(a)[:80] for a in bad] if bad else "the pair writer is not called for every pair", sample=b.name)
                got = True
        if not got:
            if any(x.key in p.reach([b.key]) for x in wr):
                __import__("report").und("UNDECIDED how %s writes the pairs" % b.name)
            else:
                rep.bad("every pair written", b.name + " writes", b.name, "the pairs of the file are not written")


def result_atom(a):
    """success of an earlier call"""
    return a.op == "eq" and a.a[0].op == "discr" and any(x.op == "call" for x in walk(a.a[0]))


def takes_pair(b):
    return b.locals[2][0] == "ref" and b.locals[2][1][:2] == ("adt", CP)
