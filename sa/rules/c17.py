"""What each version's records contain: the pairs written, under which subclass marker, from which field."""
import records, rtrip, sections
from par import pmap


def run(p, rep):
    rep.rule = ("for every record type and every version, the set of (subclass marker, group code, value type, source field or constant) the writer can "
                "emit equals the reviewed table; neither a pair too many nor one too few in any version")
    jobs = [("entities", "entity", T, rtrip.ET) for T in [v[0] for v in p.adts[rtrip.ET]["variants"]]] + \
           [("objects", "object", T, rtrip.OT) for T in [v[0] for v in p.adts[rtrip.OT]["variants"]]] + [("header", "header", "Header", rtrip.HDR)]
    try:
        tabs = rtrip.tables(p, read=False)
    except Exception as e:
        tabs = {}
        __import__("report").und("UNDECIDED tables: %s" % e)
    jobs += [("tables", "table", n, "generated::tables") for n in tabs]
    jobs += [("sections", "section", n, "drawing::Drawing") for n in sections.SECTIONS]
    F = {"sections": lambda T: sections.section(p, sections.SECTIONS[T][0], sections.SECTIONS[T][1], False), "entities": lambda T: rtrip.entity(p, T, False), "objects": lambda T: rtrip.obj(p, T, False), "header": lambda T: rtrip.header(p, False), "tables": lambda T: tabs[T]}
    exp = {s: records.load(s) for s in F}
    have = {(s, T) for s, _, T, _ in jobs}
    for s in exp:
        for T in exp[s]:
            rep.check((s, T) in have, "record type", T, s, "the record type no longer exists")
    for i, r, err in pmap(lambda i: F[jobs[i][0]](jobs[i][2]), range(len(jobs))):
        spec, kind, T, enum = jobs[i]
        if err:
            __import__("report").und("UNDECIDED %s %s: %s" % (kind, T, err.strip().splitlines()[-1][:200]))
            continue
        rep.count("record types analysed")
        rep.functions |= set(r["wfns"])
        e = exp[spec].get(T)
        if e is None:
            continue                       # a new type: nothing to compare with
        got = {}
        for row in r["rows"]:
            for x in row["wire"]:
                got.setdefault(x, set()).update(row["versions"])
        for x in sorted(set(got) | set(e["wire"])):
            g = got.get(x, set())
            w = records.unrng(p, e["wire"][x]) if x in e["wire"] else set()
            if g == w:
                rep.ok("pair and version", "%s: %s in %s" % (T, x, e["wire"][x]), n=len(w))
            if w - g:
                rep.bad("pair not written", "%s %s [%s]" % (T, x, records.rng(p, w - g)), "%s::%s" % (enum, T),
                        "%s: the pair '%s' is never written in %s, which stores it" % (T, x, records.rng(p, w - g)))
            if g - w:
                rep.bad("pair written", "%s %s [%s]" % (T, x, records.rng(p, g - w)), "%s::%s" % (enum, T),
                        "%s: the pair '%s' is written in %s, which does not have it" % (T, x, records.rng(p, g - w)))
    rep.floor("record types analysed", 90)
    rep.floor("pair and version", 20000)
