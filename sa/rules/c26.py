"""What the reader does not know is skipped and changes nothing else."""
import re
from unknown import *
import rtrip

# records whose unknown codes are their own data, or whose nested reader ends at the first code it does not know
INSIDE = {
    "XRecordObject": "every pair of an XRECORD is data",
    "TableStyle": "the cell style reader ends at the first code it does not know",
    "SectionSettings": "the nested settings readers end at the first code they do not know",
}


def canon(t):
    m = {}
    return re.sub(r"site\(\d+,", lambda x: m.setdefault(x.group(0), "site(#%d," % len(m)), repr(t))


def same(rep, what, name, a, b, where):
    """verdicts with the unknown content against those without"""
    for x in (a, b):
        u = [n for n in x["notes"] if n.startswith("unsupported")]
        if u:
            __import__("report").und("UNDECIDED %s %s: %s" % (what, name, u[0][:160]))
            rep.count("undecided")
            return
    rep.functions |= set(a.get("fns", ()))
    rep.count("cases decided")
    n0 = sorted(n.split(":")[0] for n in b["notes"])
    n1 = sorted(n.split(":")[0] for n in a["notes"])
    rep.check(n0 == n1, what, "%s notes" % name, where, "%s: with the unknown content the reader %s" % (name, a["notes"]))
    for k in set(a["verdicts"]) | set(b["verdicts"]):
        x, y = a["verdicts"].get(k), b["verdicts"].get(k)
        rep.check(x == y, what, "%s %s %s" % (name, k, x), where, "%s: %s is read as %s with the unknown content, %s without" % (name, k, x, y))


def rows(rep, what, name, a, b, where):
    bb = {tuple(r["versions"]): r for r in b["rows"]}
    for r in a["rows"]:
        o = bb.get(tuple(r["versions"])) or (b["rows"][-1] if len(a["rows"]) == 1 else None)
        if o is None:
            rep.count("undecided")
        else:
            same(rep, what, name, r, o, where)


def putback(p, rep):
    b = putback_next(p)
    f = [x[0] for x in p.adts[PUTBACK]["variants"][0][2]]
    stack = [k for k, x in enumerate(p.adts[PUTBACK]["variants"][0][2]) if x[1][:2] == ("adt", "std::vec::Vec")]
    if len(stack) != 1:
        raise Unsupported("put-back stack of CodePairPutBack")
    stack = stack[0]

    def me(v):
        return mk("agg", PUTBACK, 0, tuple(v if k == stack else mk("sym", n) for k, n in enumerate(f)))
    it = Interp(p)
    st = State()
    st.store[("O", "self")] = me(mk("vec", ()))
    got = 0
    for s, v in it.run(b, st=st):
        if v.op != "call":
            rep.bad("comments", "returns " + v.op, b.name, "the pair returned is not one taken from the file: %s" % show(v)[:200])
            continue
        got = B.OR(got, s.pc)
        code = mk("eq", it.get_field(it.get_field(it.get_field(v, OPTION, 1, 0), RESULT, 0, 0), CP, 0, 0), kint("i32", 999))
        comment = B.AND(B.AND(B.NOT(B.var(mk("eq", mk("discr", v), kint("isize", 0)))), B.var(mk("eq", mk("discr", it.get_field(v, OPTION, 1, 0)), kint("isize", 0)))), B.var(code))
        atoms = [a for a in B.support(s.pc)]
        keep = {a: a for a in atoms}
        # evaluate pc on the three facts: present, ok, 999
        for pres in (0, 1):
            for okk in (0, 1):
                for c in (0, 1):
                    def val(a):
                        if a.op == "eq" and a.a[0].op == "discr" and is_k(a.a[1]):
                            if a.a[0].a[0] is v:
                                return bool(pres) == (a.a[1].a[1] == 1)
                            return bool(okk) == (a.a[1].a[1] == 0)
                        if a is code or (a.op == "eq" and is_k(a.a[1]) and a.a[1].a[1] == 999):
                            return bool(c)
                        return None
                    r = B.restrict(s.pc, val)
                    want = not (pres and okk and c)
                    rep.check(r == (1 if want else 0), "comments", "present=%d ok=%d comment=%d" % (pres, okk, c), b.name,
                              "a pair is returned or skipped wrongly (only 999 comments are skipped)")
    # put-back is last in, first out and is served before the file
    a, c = mk("sym", "first"), mk("sym", "second")
    put = putback_put(p)
    st = State()
    st.store[("O", "self")] = me(mk("vec", ()))
    sts = [st]
    for x in (a, c):
        sts = [s for q in sts for s, _ in it.run(put, args=[ref_to("self"), x], st=q)]
    outs = []
    for want in (c, a):
        nx = []
        for q in sts:
            for s, v in it.run(b, args=[ref_to("self")], st=q):
                rep.check(v is some(want), "put back", "order " + show(want), b.name, "pairs put back are not returned last in, first out: %s" % show(v)[:120])
                nx.append(s)
        sts = nx
    rep.functions |= it.analysed
    rep.count("cases decided")


def ref_to(n):
    return mk("ref", ("O", n), ())


def run(p, rep):
    rep.rule = ("abstract interpretation of the crate's readers on what its writers produce, with and without content the program does not know inserted: an unknown record before every "
                "kind of entity and object, an unknown group code after every pair of every record, unknown header variables, unknown codes in table entries, blocks and classes, "
                "unknown tables and sections (empty or with arbitrary content) before an entity section; what is read must be the same, to the last pair. 999 comments never reach a reader and nothing else is dropped.")
    rep.assume += ["unknown group code: 475, a string code that no record uses", "unknown names differ from every name the program mentions"] + ["%s: %s" % x for x in INSIDE.items()]
    xs = [(ENT, ET, v[0]) for v in p.adts[ET]["variants"]] + [(OBJ, OT, v[0]) for v in p.adts[OT]["variants"]]

    def one(x):
        it, o = record(p, *x)
        return o, it.analysed
    for x, r, e in pmap(one, xs):
        if e:
            __import__("report").und("UNDECIDED %s: %s" % (x[2], e.strip().splitlines()[-1][:200]))
            rep.count("undecided")
            continue
        rep.functions |= r[1]
        for c, (a, b) in r[0].items():
            if c == "unknown codes inside" and x[2] in INSIDE:
                rep.count("exempt")
                continue
            same(rep, c, x[2], a, b, "%s::%s" % (x[1], x[2]))

    def guard(f, name):
        try:
            return f()
        except (Unsupported, Bound) as e:
            __import__("report").und("UNDECIDED %s: %s" % (name, str(e)[:160]))
            rep.count("undecided")
    guard(lambda: rows(rep, "header variables", "header", rtrip.header(p, transform=lambda i: header_var(p, i), feed=UFeed), rtrip.header(p), "header::Header"), "header")

    def tabs():
        t0, t1 = rtrip.tables(p), rtrip.tables(p, transform=lambda i: sprinkle(p, i, False))
        for k in t0:
            rows(rep, "table entries", k, t1[k], t0[k], "table")
    guard(tabs, "tables")
    for n, (w, f, adt) in SECTIONS.items():
        if adt:
            guard(lambda: rows(rep, "sections", n, section(p, w, f, transform=lambda i: sprinkle(p, i, False)), section(p, w, f), DR), n)

    def fr():
        n0, e0 = framed(p, [])
        for n, its in frames(p).items():
            n1, e1 = framed(p, its)
            if any(x.startswith("unsupported") for x in n0 + n1) or len(e0) != 1:
                __import__("report").und("UNDECIDED %s: %s" % (n, (n0 + n1)[:1]))
                rep.count("undecided")
                continue
            rep.count("cases decided")
            rep.check(not n1 and e1, "framing", "%s read" % n, DR, "%s: %s" % (n, n1))
            for x in e1:
                for k in x:
                    rep.check(canon(x[k]) == canon(e0[0][k]), "framing", "%s %s" % (n, k), "%s::read_sections" % DR, "an %s changes %s of the drawing" % (n, k))
    guard(fr, "sections and tables")
    guard(lambda: putback(p, rep), "put back")
    rep.floor("cases decided", 100)
