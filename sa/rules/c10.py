"""Blocks, classes and the lists of entities and objects survive a save and a load."""
import records, sections
from terms import mk


def run(p, rep):
    rep.rule = ("the pairs the BLOCKS, CLASSES, ENTITIES and OBJECTS sections write (symbolic records, lists of any length, per version) are fed to the "
                "crate's own section reader; every record must come back in order and every field equal, except where the reviewed table says the version "
                "does not store it; the pairs of the entities and objects themselves are opaque here (C06, C07)")
    rep.assume += ["handles are assigned (non-zero) before a drawing is saved", "no class is called like a structural keyword (ENDSEC, ...)"]
    for n, (w, f, adt) in sorted(sections.SECTIONS.items()):
        r = sections.section(p, w, f)
        records.one(p, rep, "section", n, r, "sections", {f + "[].": adt} if adt else {})
    vs = mk("fld", mk("fld", mk("sym", "it"), "", "header"), "", "version")
    for w in ("add_blocks_pairs", "add_entities_pairs", "add_objects_pairs", "add_tables_pairs"):
        it, items, _ = sections.emission(p, w)
        for n, what, msg in sections.passed(p, it, items, vs):
            rep.check(msg is None, "written as the drawing is", "%s %s %s" % (w, n, what), "%s::%s" % (sections.DR, w), msg)
    rep.floor("section records decided", 4)
    rep.floor("section field and version", 350)
