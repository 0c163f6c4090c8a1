"""Comparison of round-trip verdicts with the reviewed table of exceptions (sa/spec/*.json).

The table lists, for every record type, only what is *not* a plain round trip: fields a version does
not store (with the value they read back as), counts derived from a list's length, integers stored in
a narrower group code, record types a version does not have.  Everything else must come back equal."""
import json, os, re
import rtrip
from rt import versions
from par import pmap

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec")


def norm(path):
    while True:
        q = re.sub(r"(\[\]|\.0)$", "", path)
        if q == path:
            return path
        path = q


def rng(p, vs):
    V = versions(p)
    ix = sorted({V.index(v) for v in vs})
    out = []
    i = 0
    while i < len(ix):
        j = i
        while j + 1 < len(ix) and ix[j + 1] == ix[j] + 1:
            j += 1
        out.append(V[ix[i]] if i == j else (V[ix[i]] + ".." + V[ix[j]]))
        i = j + 1
    return ",".join(out)


def unrng(p, s):
    V = versions(p)
    out = []
    for x in s.split(","):
        if ".." in x:
            a, b = x.split("..")
            out += V[V.index(a):V.index(b) + 1]
        else:
            out.append(x)
    return set(out)


def notekind(n):
    return n if n.startswith("not written") else n.split(":")[0]


def table(p, rows):
    """({path: {verdict: [versions]}}, {note: [versions]}) of the non-trivial verdicts"""
    paths, notes = {}, {}
    for row in rows:
        for n in row["notes"]:
            notes.setdefault(notekind(n), []).extend(row["versions"])
        for k, v in row["verdicts"].items():
            paths.setdefault(norm(k), {}).setdefault(v, []).extend(row["versions"])
    return paths, notes


# fields that are missing on re-reading because of a defect (see known_findings.jsonl), not because the format lacks them
DEFECT = {"MentalRayRenderSettings": "", "RapidRenderSettings": "", "RapidRTRenderEnvironment": "", "RenderEnvironment": "", "RenderGlobal": "",
          "NavisWorksModelDefinition": "", "Field": "objects_handle", "Material": "map_v_tile", "ProxyEntity": "entity_data_string"}
# private working fields without accessor: not data
SCRATCH = {"Field": ("__child_field_count", "__format_string_code301", "__id_value")}


def freeze(p, T, rows):
    ps, ns = table(p, rows)
    d = {k: {a: rng(p, b) for a, b in sorted(x.items()) if a != "ok" and "wrong:" not in a and
             not (T in DEFECT and DEFECT[T] in k and k.startswith("specific") and "absent" in a)} for k, x in sorted(ps.items())}
    w = {}
    for row in rows:
        for x in row["wire"]:
            w.setdefault(x, []).extend(row["versions"])
    return dict(fields={k: x for k, x in d.items() if x},
                absent_in=rng(p, ns["not written"]) if "not written" in ns else "",
                wire={k: rng(p, v) for k, v in sorted(w.items())})


def load(name):
    return json.load(open(os.path.join(SPEC, name + ".json")))


def judge(p, rep, kind, T, r, exp, where):
    """records the verdicts of record type T"""
    exp = exp or dict(fields={}, absent_in="")
    skipv = unrng(p, exp["absent_in"]) if exp["absent_in"] else set()
    ef = {}
    for path, d in exp["fields"].items():
        for verdict, vs in d.items():
            for v in unrng(p, vs):
                ef[(path, v)] = verdict
    bad = {}
    undecided = set()
    for row in r["rows"]:
        rep.functions |= set(row["fns"])
        for n in row["notes"]:
            k = notekind(n)
            if k == "not written":
                x = set(row["versions"]) - skipv
                if x:
                    bad.setdefault(("", "not written"), [n]).extend(x)
            elif k == "unsupported":
                undecided |= set(row["versions"])
            else:
                bad.setdefault(("", k), [n]).extend(row["versions"])
        for path, verdict in row["verdicts"].items():
            q = norm(path)
            for v in row["versions"]:
                e = ef.get((q, v))
                if verdict == "ok" or verdict == e:
                    rep.ok("%s field and version" % kind, "%s %s %s" % (T, q, verdict) if verdict != "ok" else None)
                elif " | " in verdict and "wrong" not in verdict and all(x == "ok" or x == e for x in verdict.split(" | ")):
                    rep.ok("%s field and version" % kind)
                else:
                    bad.setdefault((q, verdict), [row["notes"]]).append(v)
    lost = {}
    for (path, verdict), vs in sorted(bad.items()):
        det, vs = vs[0], vs[1:]
        short = path.replace("specific<%s>.0." % T, "")
        if short in SCRATCH.get(T, ()):
            continue
        if path and "wrong" not in verdict and "absent" in verdict:
            lost.setdefault(rng(p, vs), []).append(short)
            continue
        rep.bad("%s round trip" % kind, "%s%s %s [%s]" % (T, "." + short if path else "", verdict, rng(p, vs)), where,
                "%s does not come back equal: %s in %s" % (short or T, verdict if path else det, rng(p, vs)))
    for r_, ps in sorted(lost.items()):
        rep.bad("%s round trip" % kind, "%s not restored [%s]: %s" % (T, r_, ",".join(ps)), where,
                "saved and loaded again in %s, these fields of %s hold a constant instead of their value: %s" % (r_, T, ", ".join(ps)))
    return undecided


def run(p, rep, kind, enum, f, spec, short):
    exp = load(spec)
    Ts = [v[0] for v in p.adts[enum]["variants"]]
    und = set()
    for T in exp:
        if T not in Ts:
            rep.bad("%s type" % kind, T, enum, "the %s type no longer exists" % kind)
    for T, r, err in pmap(lambda T: f(p, T), Ts):
        if err:
            und.add(T)
            rep.count("undecided %s types" % kind)
            __import__("report").und("UNDECIDED %s %s: %s" % (kind, T, err.strip().splitlines()[-1][:200]))
            continue
        rep.functions |= set(r["wfns"])
        u = judge(p, rep, kind, T, r, exp.get(T), "%s::%s" % (enum, T))
        if u:
            __import__("report").und("UNDECIDED %s %s for %s: %s" % (kind, T, rng(p, u), [n for row in r["rows"] for n in row["notes"] if n.startswith("unsupp")][0][:200]))
            rep.count("undecided %s types" % kind)
            und.add(T)
        else:
            rep.count("%s types decided" % kind)
        # every field of the type was looked at
        if not u:
            fields(p, rep, kind, enum, T, r)
    return und


def one(p, rep, kind, T, r, spec, roots):
    """a singleton record (header, table item, ...): every field of the ADTs in roots {path prefix: adt} is looked at"""
    exp = load(spec)
    rep.functions |= set(r["wfns"])
    u = judge(p, rep, kind, T, r, exp.get(T), T)
    if u:
        __import__("report").und("UNDECIDED %s %s for %s: %s" % (kind, T, rng(p, u), [n for row in r["rows"] for n in row["notes"] if n.startswith("unsupp")][0][:200]))
        rep.count("undecided %s records" % kind)
        return
    rep.count("%s records decided" % kind)
    for pre, adt in roots.items():
        seen = {re.match(r"[A-Za-z0-9_]+", k[len(pre):]).group(0) for row in r["rows"] for k in row["verdicts"] if k.startswith(pre) and re.match(r"[A-Za-z0-9_]", k[len(pre):])}
        for fl in p.adts[adt]["variants"][0][2]:
            rep.check(fl[0] in seen, "%s field compared" % kind, "%s%s" % (pre, fl[0]), adt, "no verdict was reached for this field")


def fields(p, rep, kind, enum, T, r):
    v = [x for x in p.adts[enum]["variants"] if x[0] == T][0]
    if not v[2] or v[2][0][1][0] != "adt":
        return
    ty = v[2][0][1]
    if ty[1] not in p.adts:
        return
    seen = set()
    for row in r["rows"]:
        for k in row["verdicts"]:
            m = re.match(r"specific<%s>\.0\.([A-Za-z0-9_]+)" % re.escape(T), k)
            if m:
                seen.add(m.group(1))
    if not seen:
        return
    for fl in p.adts[ty[1]]["variants"][0][2]:
        rep.check(fl[0] in seen, "%s field compared" % kind, "%s.%s" % (T, fl[0]), ty[1], "no verdict was reached for this field")
