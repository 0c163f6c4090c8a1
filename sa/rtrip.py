"""Write-then-read verdicts for the record types, per version (see rt.py for the engine)."""
import time
from rt import *
from par import pmap

VS = mk("sym", "version")
WH = mk("sym", "write_handles")


# ---- leaf codecs that the round trip takes as inverse pairs (decided by their own checks)
def h_hexs(it, st, fr, args, info):
    return [(st, mk("hexstr", it.val(st, args[0])))]


def payload(it, st, x):
    pr = it.val(st, x)
    if pr.op == "agg" and pr.a[0] == CP and pr.a[2][1].op == "agg" and pr.a[2][1].a[2]:
        return pr.a[2][1].a[2][0]
    return None


def inverse(op, via=None):
    def h(it, st, fr, args, info):
        v = payload(it, st, args[0])
        if v is not None and v.op == op:
            return [(st, ok(v.a[0]))]
        if v is not None and v.op == "phi" and all(x.op == op for _, x in v.a[0]):
            return [(st, ok(it.phi([(g, x.a[0]) for g, x in v.a[0]])))]
        if via is not None and v is not None:
            return [(st, ok(mk(via, v)))]
        return None
    return h


def symbolic(op):
    def h(it, st, fr, args, info):
        return [(st, mk(op, *[it.val(st, a) for a in args]))]
    return h


def h_sub_read(it, st, fr, args, info):
    n = it.val(st, args[0])
    if n.op in ("xdname", "extname"):
        return [(st, ok(n.a[0]))]
    return None


def undo(op):
    def h(it, st, fr, args, info):
        v = it.val(st, args[0])
        return [(st, v.a[0] if v.op == op else mk("un" + op, v))]
    return h


HW = {"handle::Handle::as_string": h_hexs}
for _n in ("local", "utc"):
    HW["helper_functions::as_double_" + _n] = symbolic("julian_" + _n)
HW["helper_functions::duration_as_double"] = symbolic("seconds")
HW["helper_functions::uuid_string"] = symbolic("uuidstr")


def h_version_from(it, st, fr, args, info):
    v = it.val(st, args[0])
    return [(st, ok(v.a[0]))] if v.op == "to_string" else None


def h_unit(it, st, fr, args, info):
    return [(st, UNIT)]


HR = {"helper_functions::as_uuid": undo("uuidstr"),
      "helper_functions::as_datetime_local": undo("julian_local"),
      "helper_functions::as_datetime_utc": undo("julian_utc"),
      "helper_functions::as_duration": undo("seconds"),
      "code_pair::CodePair::as_handle": inverse("hexstr", "unhex"),
      "x_data::XData::read_item": h_sub_read,
      "extension_data::ExtensionGroup::read_group": h_sub_read}


def opaque_parts(b):
    return b.name.endswith(("XData::add_code_pairs", "ExtensionGroup::add_code_pairs"))


class RecFeed(Feed):
    def premise(self, pair):
        # the pairs an XRECORD carries start neither a record nor x data
        if pair is None or pair_code(pair) is not None:
            return 1
        c = pair.a[2][0] if pair.op == "agg" else mk("fld", pair, "", "code")
        return B.AND(B.NOT(B.var(mk("eq", c, kint("d", 0)))), B.NOT(B.var(mk("eq", c, kint("d", 1001)))))

    def sub_pair(self, i):
        if i[2].endswith("XData::add_code_pairs"):
            return mkpair(self.p, 1001, mk("xdname", i[3][0]))
        if i[2].endswith("ExtensionGroup::add_code_pairs"):
            return mkpair(self.p, 102, mk("extname", i[3][0]))
        if i[2].endswith("add_code_pairs"):
            return mkpair(self.p, 0, kstr("SUBENTITY"))
        raise Unsupported("pairs appended by %s" % i[2])


TEMP = "__"
KEEP = ("__owner_handle", "__handle", "handle")


def skip(path):
    """private accumulators of the readers are not data"""
    last = [x for x in path.replace("[]", "").replace("<", ".").split(".") if x.startswith("__")]
    return bool(last) and last[0] in SCRATCH


SCRATCH = set()


def tidy(det):
    """verdict details that do not depend on the analysis' own numbering"""
    return "is rebuilt by a loop the analysis does not resolve" if "site(" in det else det


def verdicts(c):
    """{path: verdict string}"""
    d = {}
    for path, st, det in c.res:
        d.setdefault(path, set()).add("absent=" + det if st == "absent" else (st + ":" + tidy(det) if st in ("wrong", "derived") else st))
    for path, (a, b) in c.narrow.items():
        if path in d and "ok" in d[path]:
            d[path].discard("ok")
            d[path].add("ok~" + b)
    return {k: " | ".join(sorted(v)) for k, v in d.items()}


def by_version(p, items, wh=True, vsym=VS):
    """[(version name, restricted items or [] )] grouping equal emissions: yields (names, items)"""
    out = []
    seen = {}
    for vi, vn in enumerate(versions(p)):
        f = at_version(vsym, vi)
        its = restrict(items, lambda a: wh if a is WH else f(a))
        sg = signature(its)
        if sg in seen:
            seen[sg][0].append(vn)
            continue
        e = ([vn], its)
        seen[sg] = e
        out.append(e)
    return out


def sources(t):
    return {x for x in paths_in(t) if x not in ("version", "it.version", "write_handles")}


def cut(x):
    """the field a path goes through (for a list of records, the field of the record)"""
    ps = x.split(".")
    n = 2
    while n < len(ps) and ps[n - 1].endswith("[]"):
        n += 1
    return ".".join(ps[:n])


def origin(pl, g):
    """(fields a written value is computed from or chosen by, constants), independent of how the code spells it"""
    ps, gs, ks = set(), set(), set()
    at = set(B.support(g))
    for h, v in (pl.a[0] if pl.op == "phi" else ((1, pl),)):
        if v.op == "k":
            ks.add(str(fval(v)))
        else:
            ps |= sources(v)
        at |= set(B.support(h))
    for a in at:
        gs |= {cut(x) for x in sources(a)}
    out = ps | {x for x in gs if not any(y == x or y.startswith((x + ".", x + "[")) for y in ps)}
    # a list and its elements: the elements' fields if they matter, the list otherwise
    out = {x for x in out if not any(y.startswith(x + "[].") or y.startswith(x + ".") for y in out if x.endswith("[]") or y.startswith(x + "["))}
    return {x for x in out if not (x.endswith("[]") and x[:-2] in out)}, ks


def wire(p, items, out=None, named=False):
    """set of 'code type <- fields|constant' a writer can produce, each under the subclass marker (100), or the header
    variable name (9), it follows"""
    out = set() if out is None else out
    marks = []
    acc = {}
    for i, _ in flatten_pairs(items):
        ctx = {}
        g = i[1]
        for mg, m in reversed(marks):
            h = B.AND(g, mg)
            if h != 0:
                ctx[m] = 1
                g = B.AND(g, B.NOT(mg))
                if g == 0:
                    break
        pre = "/".join(sorted(ctx))
        pre = pre + ": " if pre else ""
        if i[0] == "pair":
            c = pair_code(i[2])
            vn, pl = pair_val(p, i[2])
            if c == (9 if named else 100) and pl is not None and pl.op == "k":
                marks.append((i[1], fval(pl)))
                if not named:
                    out.add("100 %s" % fval(pl))
                continue
            ps, ks = (set(), {"?"}) if pl is None else origin(pl, i[1])
            e = acc.setdefault(pre + "%s %s" % (c, vn), (set(), set()))
            e[0].update(ps)
            e[1].update(ks)
        else:
            out.add(pre + "sub " + i[2].split("::")[-2] + "::" + i[2].split("::")[-1])
    for k, (ps, ks) in acc.items():
        out.add(k + (" = " + "/".join(sorted(ks)) if ks and (not ps or k.endswith("Str")) else "") + (" <- " + ",".join(sorted(ps)) if ps else ""))
    return out


def trip(p, reader, items, orig, types, unwrap, **k):
    """one emission read back; when the loop rule does not apply, lists of 0, 1 and 2 elements"""
    d = trip1(p, reader, items, orig, types, unwrap, **k)
    d["bounded"] = False
    if not any(x.startswith("unsupported") for x in d["notes"]):
        return d
    notes, vs, fns = set(), {}, set()
    for n in (0, 1, 2):
        lens = {}
        try:
            its = bounded(items, n, lens)
            its = restrict(its, at_length(lens))
        except Unsupported as e:
            d["notes"].append("unsupported: " + str(e))
            return d
        e = trip1(p, reader, its, orig, types, unwrap, lens=lens, **k)
        notes |= set(e["notes"])
        fns |= set(e["fns"])
        for a, b in e["verdicts"].items():
            vs.setdefault(a, set()).update(b.split(" | "))
    return dict(notes=sorted(notes), verdicts={a: " | ".join(sorted(b)) for a, b in vs.items()}, fns=sorted(fns), bounded=True, why=d["notes"])


def trip1(p, reader, items, orig, types, unwrap, feed=RecFeed, hooks=HR, prep=None, tail=None, lens=None, args=None):
    """one emission read back: dict(res=[(kind, detail)], verdicts)"""
    fd = feed(p, items, hooks=hooks, tail=[mkpair(p, 0, kstr("ENDSEC"))] if tail is None else tail)
    s = fd.start()
    s.store[("O", "iter")] = mk("sym", "iter")
    if prep:
        prep(fd, s)
    c = Cmp(fd, types)
    c.lens = lens or {}
    notes = set()
    fns = set()
    try:
        r = fd.run(reader, args=args and [args.get(i) or fd.sym_arg(reader, i) for i in range(reader.argc)], st=s)
    except Unsupported as e:
        return dict(notes=["unsupported: " + str(e)], verdicts={}, fns=[])
    for s, ret in r:
        if ret.op == "agg" and ret.a[0] == RESULT:
            if ret.a[1] == 1:
                notes.add("error: reading back fails when %s: %s" % (B.show(s.pc, 2)[:160], show(ret.a[2][0])[:120]))
                continue
            ret = ret.a[2][0]
        k = unwrap(fd, s, ret, c)
        if k:
            notes.add(k)
    return dict(notes=sorted(notes), verdicts=verdicts(c), fns=sorted(fd.analysed))


# ------------------------------------------------------------------ entities
ENT = "generated::entities::Entity"
ET = "generated::entities::EntityType"
OBJ = "generated::objects::Object"
OT = "generated::objects::ObjectType"


def record(p, T, REC, KIND, read=True):
    """entity or object type T"""
    vix = p.variant_ix(KIND, T)
    flds = p.adts[KIND]["variants"][vix][2]
    body = mk("sym", "it")
    orig = mk("agg", REC, 0, (mk("sym", "common"), mk("agg", KIND, vix, (body,) if flds else ())))
    ctype = [f[1] for f in p.adts[REC]["variants"][0][2] if f[0] == "common"][0]
    types = {mk("sym", "common"): ctype}
    if flds:
        types[body] = flds[0][1]
    st = State()
    st.store[("O", "self")] = orig
    w = method(p, REC, "add_code_pairs")
    rd = method(p, REC, "read")
    it, items, _ = emit(p, w, st=st, opaque=opaque_parts, hooks=HW)
    out = []
    for names, its in by_version(p, items):
        if not its:
            out.append(dict(versions=names, notes=["not written"], verdicts={}, wire=[], fns=[]))
            continue
        if not read:
            out.append(dict(versions=names, notes=[], verdicts={}, wire=sorted(wire(p, its)), fns=[]))
            continue
        hasub = any(i[0] == "sub" and not opaque_name(i[2]) for i, _ in flatten_pairs(its))

        def unwrap(fd, s, x, c):
            if x.op == "agg" and x.a[0] == OPTION:
                if x.a[1] == 0:
                    return "lost: the reader returns nothing for it"
                c.same(x.a[2][0], orig, s.pc, "")
                if fd.pos(s) != fd.endpos and not hasub:
                    return "stops: the reader stops at pair %d of %d" % (fd.pos(s), fd.endpos)
                return None
            c.same(x, orig, s.pc, "")
            return None
        d = trip(p, rd, its, orig, types, unwrap)
        d["versions"] = names
        d["wire"] = sorted(wire(p, its))
        out.append(d)
    return dict(rows=out, wfns=sorted(it.analysed))


def opaque_name(n):
    return n.endswith(("XData::add_code_pairs", "ExtensionGroup::add_code_pairs"))


def entity(p, T, read=True):
    return record(p, T, ENT, ET, read)


def obj(p, T, read=True):
    return record(p, T, OBJ, OT, read)


# ------------------------------------------------------------------ header
HDR = "generated::header::Header"


def header(p, read=True, transform=None, feed=RecFeed):
    orig = mk("sym", "it")
    types = {orig: ("adt", HDR)}
    st = State()
    st.store[("O", "self")] = orig
    w = method(p, HDR, "add_code_pairs_internal")
    rd = method(p, HDR, "read")
    vs = mk("fld", orig, "", "version")
    it, items, _ = emit(p, w, st=st, opaque=opaque_parts, hooks=HW)
    hk = dict(HR)
    hk["enums::AcadVersion::from"] = h_version_from
    for b in p.bodies.values():
        if b.name.endswith("CodePairPutBack::read_as_utf8"):
            hk[b.name] = h_unit

    def unwrap(fd, s, x, c):
        c.same(x, orig, s.pc, "")
        return None if fd.pos(s) == fd.endpos else "stops: the reader stops at pair %d of %d" % (fd.pos(s), fd.endpos)
    out = []
    groups = by_version(p, items, vsym=vs)
    if transform:
        groups = [(n, transform(its)) for n, its in groups[-1:]]
    if not read:
        return dict(rows=[dict(versions=n, notes=[], verdicts={}, wire=sorted(wire(p, its, named=True)), fns=[]) for n, its in groups], wfns=sorted(it.analysed))
    for i, d, err in sorted(pmap(lambda i: trip(p, rd, groups[i][1], orig, types, unwrap, hooks=hk, feed=feed), range(len(groups))), key=lambda x: x[0]):
        names, its = groups[i]
        if err:
            d = dict(notes=["unsupported: " + err.strip().splitlines()[-1]], verdicts={}, fns=[])
        d["versions"] = names
        d["wire"] = sorted(wire(p, its, named=True))
        out.append(d)
    return dict(rows=out, wfns=sorted(it.analysed))




# ------------------------------------------------------------------ tables
DR = "drawing::Drawing"


def h_false(it, st, fr, args, info):
    return [(st, FALSE)]


def layer_color(t):
    """a layer's colour is an index: 1 to 255 (the sign in the file is the on/off flag)"""
    return t.op == "fld" and t.a[2] == "raw_value" and show(t).startswith("idx(it.__layers,") and show(t).endswith(".color.raw_value")


class TableFeed(RecFeed):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.posint = layer_color


def split(p, items, start, end):
    """[(name, items from '0 start' to '0 end')]; the name is the 2 pair that follows"""
    out, cur = [], None
    for i in items:
        if i[0] == "pair" and pair_code(i[2]) == 0:
            t = pair_val(p, i[2])[1]
            if t is kstr(start):
                cur = []
        if cur is not None:
            cur.append(i)
            if i[0] == "pair" and pair_code(i[2]) == 2 and len(cur) == 2:
                nm = fval(pair_val(p, i[2])[1])
            if i[0] == "pair" and pair_code(i[2]) == 0 and pair_val(p, i[2])[1] is kstr(end):
                out.append((nm, cur))
                cur = None
    return out


def tables(p, read=True, transform=None):
    """{table name: dict(rows, wfns, list field)}"""
    orig = mk("sym", "it")
    types = {orig: ("adt", DR)}
    st = State()
    st.store[("O", "self")] = orig
    w = method(p, DR, "add_tables_pairs")
    rd = method(p, DR, "read_sections")
    it, items, _ = emit(p, w, st=st, opaque=opaque_parts, hooks=HW, posint=layer_color)
    vs = mk("fld", mk("fld", orig, "", "header"), "", "version")
    flds = p.adts[DR]["variants"][0][2]
    hk = dict(HR)
    hk["handle::Handle::is_empty"] = h_false            # handles are assigned before saving
    fresh = mk("agg", DR, 0, tuple(mk("sym", "hdr2") if f[0] == "header" else NONE if f[0] == "thumbnail" else EMPTY for f in flds))
    jobs = []
    for names, its in by_version(p, items, vsym=vs):
        for nm, part in split(p, its, "TABLE", "ENDTAB"):
            jobs.append((names, nm, part))

    def prep(fd, s):
        s.store[("O", "drawing")] = fresh

    def source(part):
        ls = [i[2] for i in part if i[0] == "loop" and i[2] is not None]
        return ls[0] if ls else None

    def one(i):
        names, nm, part = jobs[i]
        lst = source(part)
        if lst is None:
            return dict(notes=["unsupported: the table is not written by a loop over a list"], verdicts={}, fns=[])
        fname = lst.a[2]
        ix = [k for k, f in enumerate(flds) if f[0] == fname][0]

        def unwrap(fd, s, x, c):
            d = s.store[("O", "drawing")]
            rv = fd.val(s, d.a[2][ix])
            if known_empty(s.pc, lst):
                return None if rv is EMPTY else "wrong: an empty %s table does not read back empty" % nm
            c.same(rv, lst, s.pc, fname)
            return None if fd.pos(s) == fd.endpos else "stops: the reader stops at pair %d of %d" % (fd.pos(s), fd.endpos)
        if transform:
            part = transform(part)
        frame = [("pair", 1, mkpair(p, 0, kstr("SECTION"))), ("pair", 1, mkpair(p, 2, kstr("TABLES")))] + part + [("pair", 1, mkpair(p, 0, kstr("ENDSEC")))]
        return trip(p, rd, frame, orig, types, unwrap, feed=TableFeed, hooks=hk, prep=prep, tail=[mkpair(p, 0, kstr("EOF"))])
    out = {}
    res = pmap(one, range(len(jobs))) if read else [(i, dict(notes=[], verdicts={}, fns=[]), None) for i in range(len(jobs))]
    for i, d, err in sorted(res, key=lambda x: x[0]):
        names, nm, part = jobs[i]
        if err:
            d = dict(notes=["unsupported: " + err.strip().splitlines()[-1]], verdicts={}, fns=[])
        d["versions"] = names
        d["wire"] = sorted(wire(p, part))
        lst = source(part)
        t = out.setdefault(nm, dict(rows=[], wfns=sorted(it.analysed), field=lst.a[2] if lst is not None else None))
        t["rows"].append(d)
    allv = versions(p)
    for t in out.values():
        miss = [v for v in allv if not any(v in r["versions"] for r in t["rows"])]
        if miss:
            t["rows"].append(dict(versions=miss, notes=["not written"], verdicts={}, wire=[], fns=[]))
    return out
