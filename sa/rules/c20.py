"""What an added item refers to is in the drawing."""
from dapi import *
import dapi
LAY, LT, DS, ST, VW, BR, OB = "__layers", "__line_types", "__dim_styles", "__styles", "__views", "__block_records", "__objects"
ENTITY = {("common", "layer"): LAY, ("common", "line_type_name"): LT}
DIMS = ("RotatedDimension", "RadialDimension", "DiameterDimension", "AngularThreePointDimension", "OrdinateDimension")
REFS = {("MLine", "style_name"): OB, ("Leader", "dimension_style_name"): DS, ("Tolerance", "dimension_style_name"): DS,
        ("LayerFilter", "layer_names"): LAY, ("LayerIndex", "layer_names"): LAY, ("PlotSettings", "plot_view_name"): VW}
REFS.update({(d, "dimension_base.dimension_style_name"): DS for d in DIMS})
REFS.update({(d, "text_style_name"): ST for d in ("ArcAlignedText", "Attribute", "AttributeDefinition", "MText", "Text")})
MORE = {("MLineStyle", "style_name"): (ST, LT)}
MLS = "generated::objects::MLineStyle"


def where(b):
    return "%s (%s)" % (b.name, b.span)


def wanted(p, a, f, t, name, item):
    """[(list, name term, what)] the item refers to"""
    out = []
    if t == ENT:
        for (c, n), l in ENTITY.items():
            out.append((l, a.get(item, ENT, c + "." + n), n))
    if t == "block::Block":
        out.append((LAY, a.get(item, t, "layer"), "layer"))
        out.append((BR, a.get(item, t, "name"), "name"))
        for k, e in enumerate(a.get(item, t, "entities").a[0]):
            out.append((LAY, a.get(e, ENT, "common.layer"), "entity %d's layer" % (k + 1)))
            out.append((LT, a.get(e, ENT, "common.line_type_name"), "entity %d's line type" % (k + 1)))
    if t == "generated::tables::Layer":
        out.append((LT, a.get(item, t, "line_type_name"), "line_type_name"))
    if t in (ENT, OBJ):
        sp = a.sc.red(item).a[2][1]
        fl = p.adts[sp.a[0]]["variants"][sp.a[1]][2]
        if fl:
            bt = fl[0][1][1]
            for (v, n), ls in list(REFS.items()) + list(MORE.items()):
                if v == name:
                    x = a.get(sp.a[2][0], bt, n)
                    xs = x.a[0] if x.op == "vec" else (x,)
                    for y in xs:
                        for l in ((ls,) if isinstance(ls, str) else ls):
                            out.append((l, y, n))
    return out


def is_mls(p):
    return [k for k, v in enumerate(p.adts[OT]["variants"]) if v[0] == "MLineStyle"][0]


def names(p, a, l):
    """(base list, [names of the entries pushed])"""
    base, new = chain(a.field(l))
    et = lists(p)[l]
    out = []
    for e in new:
        if l == OB:
            sp = a.get(e, OBJ, "specific")
            out.append(a.get(sp.a[2][0], MLS, "style_name") if sp.op == "agg" and sp.a[1] == is_mls(p) and sp.a[2] else None)
        else:
            out.append(a.get(e, et, "name"))
    return base, out


def present_before(p, a, l, name):
    """what this case says about an entry of that name being there already: True/False/None (not asked)"""
    for k, v in a.sc.env.items():
        if k.op == "any" and k.a[0] is a.sc.canon(mk("fld", mk("sym", "self"), "", l)):
            other = names_in(p, k.a[1], l)
            if other is not None and a.sc.canon(other) is a.sc.canon(name):
                return v
    return None


def names_in(p, pred, l):
    """the name the predicate compares an element's name to"""
    from scen import ELEM
    if pred.op != "eq":
        pred = next((x for x in walk(pred) if x.op == "eq" and not (x.a[0].op == "discr" or x.a[1].op == "discr")), pred)
    if pred.op == "eq":
        x, y = pred.a
        ex = any(z is ELEM for z in walk(x))
        ey = any(z is ELEM for z in walk(y))
        if ex == ey:
            return None
        e, o = (x, y) if ex else (y, x)
        if e.op == "fld" and e.a[2] in ("name", "style_name"):
            return o
    return None


def one(p, rep, b, f, t, name, item, hooks=None):
    it, res = dapi.run(p, b, [item]) if hooks is None else dapi.load(p, b, hooks)
    rep.functions |= it.analysed
    n = [0]
    L = lists(p)

    def case(a):
        n[0] += 1
        key = "%s(%s)" % (b.method, name)
        want = wanted(p, a, f, t, name, item)
        closed = list(want)
        # entries added on the way refer to others themselves
        for l, nm, what in want:
            if l == OB:
                closed += [(ST, nm, "multiline style"), (LT, nm, "multiline style")]
        lb, ln = chain(a.field(LAY))
        for x in ln[:-1] if f == LAY else ln:
            want.append((LT, a.get(x, "generated::tables::Layer", "line_type_name"), "added layer's line type"))
        for l, nm, what in want:
            base, new = names(p, a, l)
            hit = any(x is not None and a.sc.canon(x) is a.sc.canon(nm) for x in new) or present_before(p, a, l, nm) is True
            rep.check(hit, "present", "%s %s in %s" % (key, what, l.strip("_")), where(b), "%s of the added item (%s) is not among the %s afterwards" % (what, show(nm)[:60], l.strip("_")),
                      sample="%s: %s in %s" % (key, what, l.strip("_")))
        for l, et in L.items():
            base, new = chain(a.field(l))
            if not rep.check(base is mk("fld", mk("sym", "self"), "", l), "kept", "%s %s" % (key, l.strip("_")), where(b), "the %s already present change" % l.strip("_")):
                continue
            nms = names(p, a, l)[1] if l in (LAY, LT, DS, ST, VW, BR, OB) else [None] * len(new)
            if l == f:
                new, nms = new[:-1], nms[:-1]
            for e, nm in zip(new, nms):
                fit = nm is not None and any(w[0] == l and a.sc.canon(w[1]) is a.sc.canon(nm) for w in closed)
                # a layer added on the way has its own line type
                if not fit and l == LT and nm is not None:
                    lb, ln = chain(a.field(LAY))
                    fit = any(a.sc.canon(a.get(x, "generated::tables::Layer", "line_type_name")) is a.sc.canon(nm) for x in ln)
                rep.check(fit, "nothing else", "%s %s" % (key, l.strip("_")), where(b), "an entry is added to %s that the item does not refer to: %s" % (l.strip("_"), show(nm)[:80] if nm is not None else "?"))
                if nm is not None:
                    rep.check(present_before(p, a, l, nm) is not True and sum(1 for x in nms if x is not None and a.sc.canon(x) is a.sc.canon(nm)) == 1, "no duplicate", "%s %s" % (key, l.strip("_")), where(b),
                              "an entry %s is added to %s although one of that name is there" % (show(nm)[:60], l.strip("_")))
                    rep.check(present_before(p, a, l, nm) is False, "no duplicate", "%s %s asked" % (key, l.strip("_")), where(b),
                              "an entry %s is added to %s without looking whether one of that name is there" % (show(nm)[:60], l.strip("_")))
    cases(p, it, res, case)
    rep.count("cases", n[0])
    if not n[0]:
        raise Unsupported("%s never returns" % b.name)


def run(p, rep):
    setup(p)
    rep.rule = ("abstract interpretation of every public add operation of Drawing on a symbolic drawing and item, per entity and object type, with case analysis over which named entries exist: every name "
                "the item refers to is the name of an entry of the list it refers to afterwards; entries are added only for such names, only when none of that name was there, and existing entries are kept")
    rep.assume += ["lists inside an added item have 2 elements"]
    for f, bs in adders(p).items():
        for b in bs:
            for name, item, kids in items(p, f, lists(p)[f]):
                if kids and any(kids.values()):
                    item = item
                try:
                    one(p, rep, b, f, lists(p)[f], name, item)
                    rep.count("operations decided")
                except (Unsupported, Bound, scen.TooMany) as e:
                    __import__("report").und("UNDECIDED %s(%s): %s" % (b.method, name, str(e)[:160]))
                    rep.count("undecided")
    for f, (b, hooks) in loaders(p).items():
        for name, item, kids in items(p, f, lists(p)[f]):
            try:
                one(p, rep, b, f, lists(p)[f], name, item, hooks(item))
                rep.count("records loaded")
            except (Unsupported, Bound, scen.TooMany) as e:
                __import__("report").und("UNDECIDED %s(%s): %s" % (b.method, name, str(e)[:160]))
                rep.count("undecided")
    rep.floor("operations decided", 60)
    rep.floor("records loaded", 40)
