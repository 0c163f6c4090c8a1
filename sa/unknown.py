"""What the reader does not know is skipped: unknown records, sections, tables, header variables and group codes."""
import json
import os
from sections import *

U = mk("sym", "unknown name")
UC = kint("i32", 475)      # a string code no record uses
JUNK = mk("sym", "junk")


KNOWN = set(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec", "known_names.json"))))


class UFeed(SecFeed):
    """an unknown name equals none of the names the library knows; it may equal any other"""
    def _cmp(self, op, a, b, isint, st):
        if op == "Eq":
            for x, y in ((a, b), (b, a)):
                if x is U and is_k(y):
                    if os.environ.get("VERIF_NAMES"):
                        open(os.environ["VERIF_NAMES"], "a").write(json.dumps(y.a[1]) + "\n")
                        return FALSE
                    if y.a[1] in KNOWN:
                        return FALSE
        return super()._cmp(op, a, b, isint, st)


def pr(p, code, x):
    return ("pair", 1, mkpair(p, code, x))


def upair(p):
    return ("pair", 1, mk("agg", CP, 0, (UC, mk("agg", CPV, p.variant_ix(CPV, "Str"), (mk("sym", "unknown value"),)), kint("usize", 0))))


def junk(p):
    ix = mk("it", mk("site", 7, "junk"))
    return ("loop", mk("site", 8, "junk"), JUNK, ix, [("pair", 1, mk("idx", JUNK, ix))])


def sprinkle(p, items, on=True):
    """an unknown pair after every pair of a record (on=False: only of records in lists)"""
    out = []
    for i in items:
        if i[0] == "loop":
            out.append(i[:4] + (sprinkle(p, i[4]),))
        else:
            out.append(i)
            if i[0] == "pair" and on:
                out.append(("pair", i[1]) + upair(p)[2:])
    return out


def rec_items(p, REC, KIND, T):
    vix = p.variant_ix(KIND, T)
    flds = p.adts[KIND]["variants"][vix][2]
    body = mk("sym", "it")
    orig = mk("agg", REC, 0, (mk("sym", "common"), mk("agg", KIND, vix, (body,) if flds else ())))
    types = {mk("sym", "common"): [f[1] for f in p.adts[REC]["variants"][0][2] if f[0] == "common"][0]}
    if flds:
        types[body] = flds[0][1]
    st = State()
    st.store[("O", "self")] = orig
    it, items, _ = emit(p, method(p, REC, "add_code_pairs"), st=st, opaque=opaque_parts, hooks=HW)
    return orig, types, it, items


def rec_trip(p, REC, its, orig, types, unsub):
    def unwrap(fd, s, x, c):
        if x.op == "agg" and x.a[0] == OPTION:
            if x.a[1] == 0:
                return "lost: the reader returns nothing for it"
            x = x.a[2][0]
        c.same(x, orig, s.pc, "")
        if fd.pos(s) != fd.endpos and not unsub:
            return "stops: the reader stops at pair %d of %d" % (fd.pos(s), fd.endpos)
    return trip(p, method(p, REC, "read"), its, orig, types, unwrap, feed=UFeed)


def record(p, REC, KIND, T):
    """{case: (verdicts with the unknown content, verdicts without)} in the newest version that writes T"""
    orig, types, it, items = rec_items(p, REC, KIND, T)
    out = {}
    for vi in reversed(range(len(versions(p)))):
        f = at_version(VS, vi)
        its = restrict(items, lambda a: True if a is WH else f(a))
        if its:
            break
    else:
        return it, out
    unsub = any(i[0] == "sub" and not opaque_name(i[2]) for i, _ in flatten_pairs(its))
    base = rec_trip(p, REC, its, orig, types, unsub)
    out["unknown record before"] = (rec_trip(p, REC, [pr(p, 0, U), junk(p)] + its, orig, types, unsub), base)
    out["unknown codes inside"] = (rec_trip(p, REC, sprinkle(p, its), orig, types, unsub), base)
    return it, out


def framed(p, its):
    """its, then a section with one entity, through the section reader -> trip"""
    ix = [k for k, f in enumerate(p.adts[DR]["variants"][0][2]) if f[0] == "__entities"][0]
    ent = mk("sym", "before")
    its = its + [pr(p, 0, kstr("SECTION")), pr(p, 2, kstr("ENTITIES")), pr(p, 0, mk(ENTNAME, ent)), pr(p, 0, kstr("ENDSEC"))]
    start = fresh(p, len(versions(p)) - 1)

    def prep(fd, s):
        s.store[("O", "drawing")] = start

    ends = []

    def unwrap(fd, s, x, c):
        d = s.store[("O", "drawing")]
        ends.append({f[0]: fd.val(s, d.a[2][k]) for k, f in enumerate(p.adts[DR]["variants"][0][2])})
        return None if fd.pos(s) == fd.endpos else "stops: the reader stops at pair %d of %d" % (fd.pos(s), fd.endpos)
    t = trip(p, method(p, DR, "read_sections"), its, None, {}, unwrap, feed=UFeed, hooks=sec_hooks(p), prep=prep, tail=[mkpair(p, 0, kstr("EOF"))])
    return t["notes"], ends


def frames(p):
    sec = [pr(p, 0, kstr("SECTION"))]
    end = [pr(p, 0, kstr("ENDSEC"))]
    u = [pr(p, 0, U), junk(p)]
    return {
        "unknown section": sec + [pr(p, 2, U), junk(p)] + u + end,
        "empty unknown section": sec + [pr(p, 2, U)] + end,
        "unknown table": sec + [pr(p, 2, kstr("TABLES")), pr(p, 0, kstr("TABLE")), pr(p, 2, U), junk(p)] + u + [pr(p, 0, kstr("ENDTAB"))] + end,
        "empty unknown table": sec + [pr(p, 2, kstr("TABLES")), pr(p, 0, kstr("TABLE")), pr(p, 2, U), pr(p, 0, kstr("ENDTAB"))] + end,
    }


def header_var(p, its):
    """unknown header variables before and after the known ones"""
    x = [pr(p, 9, U), ("pair", 1, mkpair(p, 70, mk("sym", "u1"), "Short")), ("pair", 1, mkpair(p, 40, mk("sym", "u2"), "Double"))]
    return x + its + x
