"""Normalised and new drawings have the standard entries."""
from dapi import *
import dapi
from ceval import ceval, Unknown
REQ = {"__app_ids": ["ACAD", "ACADANNOTATIVE", "ACAD_NAV_VCDISPLAY", "ACAD_MLEADERVER"], "__block_records": ["*MODEL_SPACE", "*PAPER_SPACE"],
       "__dim_styles": ["STANDARD", "ANNOTATIVE"], "__layers": ["0"], "__line_types": ["BYLAYER", "BYBLOCK", "CONTINUOUS"], "__styles": ["STANDARD", "ANNOTATIVE"],
       "__view_ports": ["*ACTIVE"]}
UCS = ["ucs_definition_name", "ucs_name", "ortho_ucs_reference", "paperspace_ucs_definition_name", "paperspace_ucs_name", "paperspace_ortho_ucs_reference"]


def where(b):
    return "%s (%s)" % (b.name, b.span)


def spine(sc, t):
    """(elements or None, symbolic base or None, sorted?)"""
    srt = False
    new = []
    while True:
        if t.op == "phi":
            xs = [x for g, x in t.a[0] if sc.guard(g)]
            if not xs:
                return None
            t = xs[0]
        elif t.op == "sorted":
            srt = t.a[1] if len(t.a) > 1 else True
            t = t.a[0]
        elif t.op == "pushed":
            new.append(t.a[1])
            t = t.a[0]
        else:
            break
    return t, new[::-1], srt


def HT(p):
    return [x[1][1] for x in dfields(p) if x[0] == "header"][0]


def sort_keys(p, it, rep):
    pass


def normalise(p, rep, b, label, ucs, only=None):
    L = lists(p)
    d = mk("sym", "self")
    el = {}
    for u, x in zip(UCS, ucs):
        d = setf(p, d, DR, "header." + u, kstr(x))
    for f, t in L.items():
        if only and f not in only:
            d = setf(p, d, DR, f, mk("vec", ()))
        elif own_handle(p, t) or f in REQ:
            el[f] = mk("sym", "%s[0]" % f.strip("_"))
            d = setf(p, d, DR, f, mk("vec", (el[f],)))
    it = Unroll(p)
    it.deadline = time.time() + 300
    st = State()
    st.store[("O", "self")] = d
    res = it.run(b, args=[SELF], st=st)
    rep.functions |= it.analysed
    for s, v in res:
        now = s.store[("O", "self")]
        for f, t in L.items():
            if only and f not in only:
                continue
            val = it.get_field(now, DR, None, fnum(p, DR, f))
            nms = fnum(p, t, "name") is not None
            req = list(REQ.get(f, []))
            n = [0]

            def one(sc):
                if not sc.guard(s.pc):
                    return
                n[0] += 1
                sp = spine(sc, val)
                key = "normalize %s%s" % (f.strip("_"), label)
                if sp is None:
                    return
                base, new, srt = sp
                if f not in el:
                    rep.check(base is mk("fld", mk("sym", "self"), "", f) and not new, "kept", key, where(b), "%s changes" % f)
                    return
                if base.op != "vec" or not base.a[0]:
                    if base.op == "vec":
                        rep.bad("kept", key, where(b), "an entry that was there is gone")
                        return
                    raise Unsupported("%s: not followed: %s" % (key, show(base)[:100]))
                mine, rest = base.a[0][0], list(base.a[0][1:]) + new
                if not nms:
                    rep.check(not rest, "nothing else", key, where(b), "entries are added to %s" % f.strip("_"))
                    return
                N0 = sc.red(getf(p, mine, t, "name"))
                rep.check(N0 is getf(p, el[f], t, "name"), "kept", key, where(b), "the name of an entry that was there changes to %s" % show(N0)[:60])
                h = sc.red(getf(p, mine, t, own_handle(p, t)))
                rep.check(h is getf(p, el[f], t, own_handle(p, t)), "kept", key + " handle", where(b), "the handle of an entry that was there changes")
                names = [sc.red(getf(p, x, t, "name")) for x in rest]
                want = [kstr(x) for x in req]
                hd = it.get_field(now, DR, None, fnum(p, DR, "header"))
                if f == "__layers":
                    want.append(sc.red(getf(p, hd, HT(p), "current_layer")))
                if f == "__ucss":
                    for u in UCS:
                        x = sc.red(getf(p, hd, HT(p), u))
                        if not sc.holds(mk("eq", x, kstr(""))):
                            want.append(x)
                C = sc.canon
                for w in want:
                    ok = any(C(x) is C(w) for x in names) or sc.holds(mk("eq", N0, w) if not is_k(N0) else mk("eq", w, N0))
                    rep.check(ok, "present", "%s %s" % (key, show(w)[:40]), where(b), "%s is not among the %s afterwards" % (show(w)[:60], f.strip("_")), sample="%s has %s" % (key, show(w)[:40]))
                for i, x in enumerate(names):
                    if any(C(x) is C(w) for w in want):
                        rep.check(not any(C(x) is C(y) for y in names[:i]), "no duplicate", key, where(b), "%s is added twice to %s" % (show(x)[:60], f.strip("_")))
                        rep.check(not sc.holds(mk("eq", N0, x)), "no duplicate", key + " there", where(b), "%s is added to %s although it is there" % (show(x)[:60], f.strip("_")))
                    elif f == "__line_types" and any(c.op == "eq" for c in ()):
                        pass
                    elif f == "__ucss":
                        rep.check(False, "nothing else", key, where(b), "%s is added to %s" % (show(x)[:60], f.strip("_")))
                    elif f != "__line_types":
                        rep.check(False, "nothing else", key, where(b), "%s is added to %s" % (show(x)[:60], f.strip("_")))
                if f in REQ or f in ("__ucss", "__views"):
                    rep.check(by_name(p, it, srt, t), "sorted", key, where(b), "%s are not sorted by name afterwards" % f.strip("_"))
            try:
                scen.explore(one, 20000)
                rep.count("lists decided")
            except (Unsupported, scen.TooMany) as e:
                __import__("report").und("UNDECIDED normalize %s: %s" % (f, str(e)[:200]))
                rep.count("undecided")
            rep.count("cases", n[0])


def by_name(p, it, srt, t):
    """is the comparison the one of the names"""
    if srt in (True, False):
        return srt
    A, Z = (getf(p, mk("sym", n), t, "name") for n in ("$a", "$b"))
    if srt.op == "cmp":
        return srt.a[0] is A and srt.a[1] is Z
    if srt is A:
        return True
    raise Unsupported("comparison %s" % show(srt)[:100])


VALUES = {
    "header::Header": {"default_text_height": 0.2, "trace_width": 0.05, "text_style": "STANDARD", "current_layer": "0", "current_entity_line_type": "BYLAYER", "dimension_style_name": "STANDARD", "file_name": "."},
    "tables::Layer": {"line_type_name": "CONTINUOUS", "color": None},
    "tables::Style": {"text_height": 0.0, "width_factor": 1.0},
    "tables::View": {"view_height": 1.0, "view_width": 1.0, "lens_length": 1.0},
    "tables::ViewPort": {"snap_spacing.x": 1.0, "snap_spacing.y": 1.0, "snap_spacing.z": 1.0, "grid_spacing.x": 1.0, "grid_spacing.y": 1.0, "grid_spacing.z": 1.0, "view_height": 1.0,
                         "view_port_aspect_ratio": 1.0, "lens_length": 50.0, "ucs_icon": 3, "circle_sides": 1000},
    "block::Block": {"layer": "0"},
    "entities::EntityCommon": {"layer": "0"},
}


def invalid(a, x):
    """does the atom say that x is not a usable value: True / False (says the opposite) / None"""
    z = lambda t: is_k(t) and t.a[1] in (0, 0.0, "0", "0.0") or is_k(t) and fval(t) == 0
    if a.op == "eq" and (a.a[0] is mk("len", x) and z(a.a[1]) or a.a[0] is x and is_k(a.a[1]) and fval(a.a[1]) == ""):
        return True
    if a.op in ("fle", "le") and a.a[0] is x and z(a.a[1]):
        return True
    if a.op == "lt" and a.a[0] is x and is_k(a.a[1]) and fval(a.a[1]) == 1:
        return True
    if a.op in ("flt", "lt") and a.a[1] is x and z(a.a[0]):
        return False
    return None


def witness(x, y, d):
    """a value for which the normalised one is neither kept nor the default as it should be"""
    if isinstance(d, str):
        xs = ["", " ", "0", "a", "A", "standard", "STANDARD", ".", "*", "bylayer", "x y"]
        good = lambda v: v != ""
    elif isinstance(d, float):
        xs = [-1e308, -1.0, -1e-300, -0.0, 0.0, 5e-324, 1e-300, 1e-13, 1e-9, 1e-6, 0.001, 0.04, 0.2, 0.5, 1.0, 1.5, 49.0, 50.0, 51.0, 999.0, 1001.0, 1e6, 1e15, 1e308, float("inf")]
        good = lambda v: v > 0
    else:
        xs = [-32768, -1, 0, 1, 2, 3, 4, 7, 999, 1000, 1001, 20000, 20001, 32767]
        good = lambda v: v > 0
    for v in xs:
        try:
            z = ceval(y, {x: v})
        except (Unknown, TypeError, AttributeError):
            continue
        if z != (v if good(v) else d):
            return v, z
    return None


def values(p, rep):
    """the normalize functions of the single types: unusable values are replaced by the default, all others kept"""
    for adt in sorted(p.adts):
        short = "::".join(adt.split("::")[-2:])
        if short not in VALUES:
            continue
        for b in public(p, adt, lambda b: b.argc == 1 and b.method == "normalize"):
            it = Unroll(p)
            st = State()
            st.store[("O", "self")] = mk("sym", "self")
            res = it.run(b, args=[SELF], st=st)
            rep.functions |= it.analysed
            for s, v in res:
                now = s.store[("O", "self")]
                got = {}
                for z in diff(mk("sym", "self"), now):
                    nm = pname(p, z[0])
                    key = "%s.%s" % (short, nm)
                    if nm not in VALUES[short]:
                        rep.bad("values", key, where(b), "normalising changes %s" % nm)
                        continue
                    got[nm] = 1
                    d = VALUES[short][nm]
                    x, y = z[1], z[2]
                    if d is None:
                        colour(p, rep, it, key, b, x, y)
                        continue
                    w = witness(x, y, d)
                    if w is not None:
                        rep.bad("values", key, where(b), "%s %r becomes %r" % (nm, w[0], w[1]))
                        continue
                    if y.op != "phi" or len(y.a[0]) != 2 or x not in (y.a[0][0][1], y.a[0][1][1]):
                        if is_k(y) or x in (w for g, w in (y.a[0] if y.op == "phi" else ())):
                            rep.bad("values", key, where(b), "%s becomes %s" % (nm, show(y)[:120]))
                            continue
                        raise Unsupported("%s: %s" % (key, show(y)[:100]))
                    (g, c), (g2, c2) = y.a[0]
                    if c is x:
                        (g, c), (g2, c2) = (g2, c2), (g, c)
                    if not is_k(c):
                        raise Unsupported("%s: %s" % (key, show(y)[:100]))
                    n = B.nodes[g]
                    if g < 2 or not {n[1], n[2]} <= {0, 1}:
                        raise Unsupported("%s: %s" % (key, show(y)[:100]))
                    inv = invalid(B.atoms[n[0]], x)
                    if inv is None:
                        raise Unsupported("%s: condition %s" % (key, show(B.atoms[n[0]])[:100]))
                    if n[2] == 0:
                        inv = not inv
                    rep.check(inv and fval(c) == d and type(fval(c)) in (type(d), int, float, str), "values", key, where(b), "%s becomes %s" % (nm, show(y)[:120]), sample="%s: %s unless usable" % (key, d))
                for nm in VALUES[short]:
                    rep.check(nm in got, "values", "%s.%s" % (short, nm), where(b), "an unusable %s is left as it is" % nm)
            rep.count("types normalised")


def colour(p, rep, it, key, b, x, y):
    """BYBLOCK (0) and BYLAYER (256) become 7"""
    raw = it.get_field(x, "color::Color", None, 0)

    def one(sc):
        z = sc.red(y)
        bad = sc.holds(mk("eq", raw, kint("d", 0))) or sc.holds(mk("eq", raw, kint("d", 256)))
        if bad:
            rep.check(z.op == "agg" and is_k(z.a[2][0]) and z.a[2][0].a[1] == 7, "values", key + " not a colour", where(b), "a layer's colour BYBLOCK or BYLAYER becomes %s" % show(z)[:60])
        else:
            rep.check(not diff(x, z), "values", key + " kept", where(b), "a layer's colour becomes %s" % show(z)[:60])
    scen.explore(one)


def new(p, rep):
    """Drawing::new() and Drawing::default(): concrete"""
    L = lists(p)
    for b in [b for b in p.bodies.values() if b.isfn and b.self_ty == ("adt", DR) and b.argc == 0 and b.locals[0] == ("adt", DR) and (b.vis == "pub" or b.trait)]:
        it = Unroll(p)
        it.deadline = time.time() + 300
        for s, v in it.run(b, args=[]):
            rep.functions |= it.analysed
            hs = {}
            sc = scen.Scen({})
            for f, t in L.items():
                val = it.get_field(it.val(s, v), DR, None, fnum(p, DR, f))
                sp = spine(sc, val)
                base, more, srt = sp
                if base.op != "vec":
                    raise Unsupported("%s %s: %s" % (b.method, f, show(base)[:80]))
                xs = list(base.a[0]) + more
                key = "%s %s" % (b.method, f.strip("_"))
                if own_handle(p, t):
                    for x in xs:
                        h = sc.red(getf(p, x, t, own_handle(p, t)))
                        hv = val_of(h)
                        rep.check(hv is not None and hv != 0 and hv not in hs, "own handle", key, where(b), "an entry of %s has the handle %s" % (f.strip("_"), show(h)[:60]))
                        hs[hv] = 1
                if f in REQ:
                    ns = sorted(fval(sc.red(getf(p, x, t, "name"))) for x in xs)
                    rep.check(ns == sorted(REQ[f]), "new drawing", key, where(b), "%s of a new drawing: %s" % (f.strip("_"), ns), sample="%s: %s" % (key, ns))
                else:
                    rep.check(not xs, "new drawing", key, where(b), "%s of a new drawing are not empty" % f.strip("_"))
            hd = it.get_field(it.val(s, v), DR, None, fnum(p, DR, "header"))
            nx = val_of(sc.red(getf(p, hd, HT(p), "next_available_handle")))
            rep.check(nx is not None and all(x < nx for x in hs if x is not None), "next handle", b.method, where(b), "the next handle of a new drawing is %s" % nx)
            rep.count("new drawings")


def val_of(t):
    if t.op == "agg" and len(t.a[2]) == 1:
        return val_of(t.a[2][0])
    if is_k(t):
        return t.a[1]
    if t.op == "Add":
        a, b = val_of(t.a[0]), val_of(t.a[1])
        return None if a is None or b is None else a + b
    return None


def run(p, rep):
    setup(p)
    rep.rule = ("abstract interpretation of Drawing::normalize on a drawing with one symbolic entry in each list, with case analysis over the names: required names are present afterwards, none twice, "
                "what was there is kept, and lists are sorted by name; Drawing::new evaluated abstractly has exactly the standard entries, each with a handle of its own")
    rep.assume += ["lists have one entry before normalising"]
    for b in public(p, DR, lambda b: b.argc == 1 and b.method == "normalize"):
        normalise(p, rep, b, "", [""] * 6)
        for i, u in enumerate(UCS):
            normalise(p, rep, b, " (%s)" % u, ["U" if k == i else "" for k in range(6)], ("__ucss",))
        normalise(p, rep, b, " (six different)", list("ABCDEF"), ("__ucss",))
        normalise(p, rep, b, " (six equal)", ["A"] * 6, ("__ucss",))
    for g in (values, new):
        try:
            g(p, rep)
        except (Unsupported, Bound, scen.TooMany) as e:
            __import__("report").und("UNDECIDED %s: %s" % (g.__name__, str(e)[:200]))
            rep.count("undecided")
    rep.floor("lists decided", 8)
