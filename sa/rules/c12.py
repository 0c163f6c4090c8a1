"""The kind of value each group code has, in the table of codes and in what the writers emit."""
import re
import records, report, rtrip, sections
from codec import *
import rt
from par import pmap

# group code ranges of the DXF reference
TABLE = [("Str", [(0, 9), (100, 102), (105, 105), (300, 309), (320, 369), (390, 399), (410, 419), (430, 439), (470, 481), (999, 1009)]),
         ("Double", [(10, 59), (110, 149), (210, 239), (460, 469), (1010, 1059)]),
         ("Short", [(60, 79), (170, 179), (270, 289), (370, 389), (400, 409), (1060, 1070)]),
         ("Integer", [(90, 99), (420, 429), (440, 459), (1071, 1071)]), ("Long", [(160, 169)]), ("Boolean", [(290, 299)]), ("Binary", [(310, 319)])]
KIND = {c: k for k, rs in TABLE for lo, hi in rs for c in range(lo, hi + 1)}
ET = "ExpectedType"


def kind_fn(p):
    b = rt.method(p, ET, "new")
    return b


def kinds(p, codes):
    """{code: kind or None}, functions"""
    b = kind_fn(p)
    names = [v[0] for v in p.adts[ET]["variants"]]
    out, used = {}, set()
    for c in codes:
        it = Codec(p)
        it.events_off = True
        r = it.run(b, args=[kint("i32", c)], st=State())
        used |= it.analysed
        vs = set()
        for s, v in r:
            for s2, x in it.split(s, it.val(s, v)):
                x = x if x.op == "agg" else it.val(s2, x)
                vs.add(names[x.a[2][0].a[1]] if x.op == "agg" and x.a[1] == 1 else None)
        if len(vs) != 1:
            raise Undef("the kind of code %d is not decided" % c)
        out[c] = vs.pop()
    return out, used


def points(p):
    """every code of the reference, and around every number the code compares with"""
    b = kind_fn(p)
    ks = set()

    def walk(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] == "int" and isinstance(x[1], int):
                ks.add(x[1])
            for y in x:
                walk(y)
        elif isinstance(x, int) and not isinstance(x, bool):
            pass
    walk(b.blocks)
    pts = set(range(-1, 1102)) | {-(1 << 31), (1 << 31) - 1, 32767, 32768, 65535, 65536, -32768, 256, -5, -290}
    for k in ks:
        if k >= 1 << 31:
            k -= 1 << 32
        pts |= {x for x in (k - 1, k, k + 1) if -(1 << 31) <= x < 1 << 31}
    return sorted(pts)


def run(p, rep):
    rep.rule = ("ExpectedType::new, interpreted for every code of the reference and on both sides of every number it compares with, gives the kind of the DXF "
                "reference; every pair each writer can emit, in every version, has the kind of its group code")
    pts = points(p)
    n = 64
    for i, r, err in pmap(lambda i: kinds(p, pts[i * n:(i + 1) * n]), range((len(pts) + n - 1) // n)):
        if err:
            report.und("UNDECIDED codes: %s" % err.strip().splitlines()[-1][:200])
            continue
        rep.functions |= r[1]
        for c, k in r[0].items():
            rep.check(k == KIND.get(c), "kind of a group code", "code %d" % c, "ExpectedType::new (%s)" % kind_fn(p).span,
                      "group code %d is taken as %s, the DXF reference has %s" % (c, k, KIND.get(c)), sample="%d: %s" % (c, k))
    jobs = [("entity", v[0]) for v in p.adts[rtrip.ET]["variants"]] + [("object", v[0]) for v in p.adts[rtrip.OT]["variants"]] + [("header", "Header")]
    try:
        tabs = rtrip.tables(p, read=False)
    except Exception as e:
        tabs = {}
        report.und("UNDECIDED tables: %s" % e)
    jobs += [("table", n) for n in tabs] + [("section", n) for n in sections.SECTIONS]
    F = {"section": lambda T: sections.section(p, sections.SECTIONS[T][0], sections.SECTIONS[T][1], False), "entity": lambda T: rtrip.entity(p, T, False),
         "object": lambda T: rtrip.obj(p, T, False), "header": lambda T: rtrip.header(p, False), "table": lambda T: tabs[T]}
    for i, r, err in pmap(lambda i: F[jobs[i][0]](jobs[i][1]), range(len(jobs))):
        kind, T = jobs[i]
        if err:
            report.und("UNDECIDED %s %s: %s" % (kind, T, err.strip().splitlines()[-1][:200]))
            continue
        rep.count("record types analysed")
        rep.functions |= set(r["wfns"])
        for x in {x for row in r["rows"] for x in row["wire"]}:
            m = re.match(r"(?:[^:]*: )?(\d+) (\w+) (?:<-|=)", x)
            if not m:
                continue
            c, k = int(m.group(1)), m.group(2)
            src = x.split("<-", 1)[1].strip() if "<-" in x else x.split("=", 1)[1].strip()
            rep.check(KIND.get(c) == k, "kind of a written pair", "%s %d %s <- %s" % (T, c, k, src), "%s %s" % (kind, T),
                      "%s writes code %d as %s (from %s); its kind is %s, so binary files cannot be read back" % (T, c, k, src, KIND.get(c)))
    rep.floor("kind of a group code", 1000)
    rep.floor("record types analysed", 90)
    rep.floor("kind of a written pair", 2000)
