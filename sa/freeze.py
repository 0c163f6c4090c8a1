"""Regenerates the reviewed tables under sa/spec; run by hand after reviewing, never by a check."""
import sys, json, os
import build, mir, rtrip, records, sections
from par import pmap

# pairs the current tree gets wrong (known findings): the reviewed lines stay
FIXED = {"MLine": ("start_point", "vertices", "segment_directions", "miter_directions"), "DgnUnderlay": ("it.points",), "DwfUnderlay": ("it.points",),
         "PdfUnderlay": ("it.points",), "Material": ("specular_gloss_factor", "specular_color_factor")}


def keep(T, new, old):
    if T in FIXED or T == "Wipeout":
        new["fields"] = old["fields"]
    if T in FIXED:
        hit = lambda k: any(x in k for x in FIXED[T])
        new["wire"] = {k: v for k, v in list(new["wire"].items()) + list(old["wire"].items()) if (hit(k) and k in old["wire"]) or not hit(k) and k in new["wire"]}
    return new


if __name__ == "__main__":
    p = mir.Prog(build.dump())
    for spec, enum, f in (("entities", rtrip.ET, rtrip.entity), ("objects", rtrip.OT, rtrip.obj)):
        if len(sys.argv) > 1 and spec not in sys.argv[1:]:
            continue
        out = {}
        for T, r, e in pmap(lambda T: f(p, T), [v[0] for v in p.adts[enum]["variants"]]):
            if e:
                raise SystemExit(e)
            out[T] = keep(T, records.freeze(p, T, r["rows"]), records.load(spec)[T])
        json.dump(out, open(os.path.join(records.SPEC, spec + ".json"), "w"), indent=1, sort_keys=True)
    if len(sys.argv) < 2 or "tables" in sys.argv[1:]:
        out = {}
        for n, r in rtrip.tables(p).items():
            out[n] = records.freeze(p, n, r["rows"])
        for n, f in (("VIEW", "__views"), ("VPORT", "__view_ports")):
            # stored only with the record's own coordinate system (codes 110-146 are conditional on 72 / 65)
            out[n]["fields"][f + "[].orthographic_view_type"].update({"wrong:enum values do not survive: Top->None/Top, Bottom->Bottom/None, Front->Front/None, "
                                                                      "Back->Back/None, Left->Left/None, Right->None/Right": "R2000..R2018"})
        json.dump(out, open(os.path.join(records.SPEC, "tables.json"), "w"), indent=1, sort_keys=True)
    if len(sys.argv) < 2 or "header" in sys.argv[1:]:
        out = {"Header": records.freeze(p, "Header", rtrip.header(p)["rows"])}
        out["Header"]["fields"]["is_x_ref_clipping_boundary_visible"].update({
            "wrong:enum values do not survive: DisplayedNotPlotted->DisplayedAndPlotted": "R2004..R2007"})  # $XCLIPFRAME is a boolean before R2010
        json.dump(out, open(os.path.join(records.SPEC, "header.json"), "w"), indent=1, sort_keys=True)
    if len(sys.argv) < 2 or "sections" in sys.argv[1:]:
        out = {n: records.freeze(p, n, sections.section(p, w, f)["rows"]) for n, (w, f, _) in sections.SECTIONS.items()}
        json.dump(out, open(os.path.join(records.SPEC, "sections.json"), "w"), indent=1, sort_keys=True)
    if len(sys.argv) < 2 or "nested" in sys.argv[1:]:
        out = {n: records.freeze(p, n, sections.nested(p, n)["rows"]) for n in sections.NESTED}
        # a vertex is written with the 3-D flags of its polyline
        out["Polyline"]["fields"]["specific<Polyline>.0.__vertices_and_handles[].0.flags"] = {
            "wrong:reads back from it.__vertices_and_handles[].0.flags": "Version_1_0..R2018"}
        json.dump(out, open(os.path.join(records.SPEC, "nested.json"), "w"), indent=1, sort_keys=True)
