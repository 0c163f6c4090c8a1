"""Symbol table records survive a save and a load."""
import records, rtrip


def run(p, rep):
    rep.rule = ("the pairs each symbol table writes (symbolic records, lists of any length, per version) are fed to the crate's own table reader; every field "
                "of every record must come back equal and in order, except where the reviewed table says the version does not store it")
    rep.assume += ["handles are assigned (non-zero) before a drawing is saved", "a layer's colour index is between 1 and 255"]
    exp = records.load("tables")
    T = rtrip.tables(p)
    for n in exp:
        if n not in T:
            rep.bad("table", n, "generated::tables", "the %s table is no longer written" % n)
    for n, r in sorted(T.items()):
        f = [x for x in p.adts[rtrip.DR]["variants"][0][2] if x[0] == r["field"]]
        roots = {}
        if f:
            el = [x for x in f[0][1][2:] if isinstance(x, tuple)]
            ty = next((x for x in walk_ty(f[0][1]) if x[0] == "adt" and x[1].startswith("generated::tables")), None)
            if ty:
                roots[r["field"] + "[]."] = ty[1]
        records.one(p, rep, "table", n, r, "tables", roots)
    rep.floor("table records decided", 9)
    rep.floor("table field and version", 2500)


def walk_ty(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            yield from walk_ty(x) if x and isinstance(x[0], str) else (z for y in x if isinstance(y, tuple) for z in walk_ty(y))
