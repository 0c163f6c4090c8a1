"""Pairs through text and binary files."""
import report
from pairs import *
from par import pmap
from rules.c12 import KIND

S, E = (0, "Str", kstr("SECTION")), (0, "Str", kstr("EOF"))
A = (62, "Short", mk("sym", "after"))
A7 = (62, "Short", kint("i16", 7))


def sample(code, kind, text, ver, p):
    """a symbolic value of the kind"""
    if kind == "Str":
        return txt((csym("c1", (0x61, 0x7A)), csym("c2", (0x30, 0x39))))
    if kind == "Binary":
        return mk("vec", (kint("u8", 0), kint("u8", 0xFF), kint("u8", 0x1A)))
    if kind == "Boolean":
        two = rt.versions(p).index(ver) >= rt.versions(p).index("R13")
        return mk("cast", mk("sym", "b"), "u8", "i16") if two and not text else mk("sym", "v16")
    return mk("sym", {"Short": "v16", "Integer": "v32", "Long": "v64", "Double": "vf"}[kind])


def name(text, ver):
    return ("text" if text else "binary") + " " + ver


def lines(p, xs, nl="\r\n", last=True):
    """bytes of text lines"""
    out = []
    for k, x in enumerate(xs):
        out += list(to_bytes(elems(kstr(x)) if isinstance(x, str) else x))
        if last or k + 1 < len(xs):
            out += [kint("u8", b) for b in nl.encode()]
    return tuple(out)


def foreign(p):
    """[(name, bytes, pairs)]: text as other programs write it"""
    def num(v, ty):
        return (mk("num", v, ty, 0),)
    n16, n32, n64 = mk("sym", "v16"), mk("sym", "v32"), mk("sym", "v64")
    base = [(0, "Str", kstr("SECTION")), (62, "Short", kint("i16", 7)), (1, "Str", kstr("a b")), (310, "Binary", mk("vec", (kint("u8", 0xAB), kint("u8", 0x0C)))),
            (40, "Double", kf64(1.5)), (90, "Integer", kint("i32", -3)), (160, "Long", kint("i64", 4)), (290, "Boolean", kint("i16", 1)), (0, "Str", kstr("EOF"))]
    vals = ["SECTION", "7", "a b", "AB0C", "1.5", "-3", "4", "1", "EOF"]
    codes = [str(x[0]) for x in base]

    def mixed(cs, vs):
        return [x for cv in zip(cs, vs) for x in cv]
    out = [("line ends LF", lines(p, mixed(codes, vals), "\n"), base),
           ("last line without an end", lines(p, mixed(codes, vals), "\r\n", False), base),
           ("last line without an end, LF", lines(p, mixed(codes, vals), "\n", False), base),
           ("byte order mark", (kint("u8", 0xEF), kint("u8", 0xBB), kint("u8", 0xBF)) + lines(p, mixed(codes, vals)), base),
           ("codes padded on the left", lines(p, mixed(["%6s" % c for c in codes], vals)), base),
           ("codes padded on the right", lines(p, mixed(["%-6s" % c for c in codes], vals)), base),
           ("codes with a tab", lines(p, mixed(["\t" + c for c in codes], vals)), base),
           ("numbers padded", lines(p, mixed(codes, [v if i in (0, 2, 3, 8) else "   " + v + "  " for i, v in enumerate(vals)])), base),
           ("lower case hex", lines(p, mixed(codes, [v.lower() if i == 3 else v for i, v in enumerate(vals)])), base),
           ("shorts written as reals", lines(p, mixed(codes, [v + ".0" if i in (1, 7) else v for i, v in enumerate(vals)])), base),
           ("reals with an exponent", lines(p, mixed(codes, ["1.5E+00" if i == 4 else v for i, v in enumerate(vals)])), base),
           ("reals with a lower case exponent", lines(p, mixed(codes, ["0.15e1" if i == 4 else v for i, v in enumerate(vals)])), base),
           ("numbers with a plus", lines(p, mixed(codes, ["+" + v if i in (1, 4, 6) else v for i, v in enumerate(vals)])), base),
           ("text with spaces around it", lines(p, mixed(codes, ["  a b " if i == 2 else v for i, v in enumerate(vals)])),
            [(1, "Str", kstr("  a b ")) if x[0] == 1 else x for x in base]),
           ("empty text", lines(p, mixed(codes, ["" if i == 2 else v for i, v in enumerate(vals)])), [(1, "Str", kstr("")) if x[0] == 1 else x for x in base]),
           ("empty binary", lines(p, mixed(codes, ["" if i == 3 else v for i, v in enumerate(vals)])), [(310, "Binary", mk("vec", ())) if x[0] == 310 else x for x in base]),
           ("comment first", lines(p, ["999", "made by hand"] + mixed(codes, vals)), [(999, "Str", kstr("made by hand"))] + base)]
    return out


def bad(p):
    """[(name, bytes)]: text that has to be refused"""
    out = []
    for code, val in (("62", "x"), ("62", ""), ("40", "1,5"), ("40", ""), ("90", "1.5x"), ("90", "2147483648"), ("90", "-2147483649"), ("160", "abc"), ("160", "9223372036854775808"),
                      ("290", "yes"), ("310", "0G"), ("310", "A G0"), ("85", "1"), ("1072", "1"), ("-5", "x"), ("6 2", "7"), ("0x3E", "7"), ("62.0", "7")):
        out.append(("code '%s' value '%s'" % (code, val), lines(p, ["0", "SECTION", code, val, "0", "EOF"])))
    return out


def jobs(p):
    vs = rt.versions(p)
    out = []
    for text in (True, False):
        for ver in ("R12", "R2018"):
            for c in sorted(KIND):
                out.append(("code", c, text, ver))
        for ver in vs:
            for c in (1, 62, 90, 160, 40, 290, 310, 1071, 1000):
                if c in KIND and ver not in ("R12", "R2018"):
                    out.append(("code", c, text, ver))
        for ver in ("R12", "R2018"):
            for n in (0, 1, 2, 3, 127, 128, 254, 255, 300):
                out.append(("bytes", n, text, ver))
            for b in range(0, 256, 8):
                out.append(("values", b, text, ver))
            for k in range(len(SPECIAL)):
                out.append(("real", k, text, ver))
            for k in range(len(SHORTS)):
                out.append(("short", k, text, ver))
    out += [("foreign", k, True, "R12") for k in range(len(foreign(p)))]
    out += [("bad", k, True, "R12") for k in range(len(bad(p)))]
    return out


SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, 1e-12, 1e15, 123456789.125, 1e20, -1e20, 9007199254740993.0, -123456789012.125, 1.7976931348623157e308, -100.0, 1e-12 * 7, float("inf"), float("-inf"), float("nan")]
SHORTS = [("Short", "i16", 70), ("Boolean", "i16", 290), ("Integer", "i32", 90), ("Long", "i64", 160)]


def values(kind, ty):
    n = {"i16": 16, "i32": 32, "i64": 64}[ty]
    return [kint(ty, v) for v in (0, 1, -1, 9, 10, 127, 255, 256, (1 << (n - 1)) - 1, -(1 << (n - 1)))]


TYPE = {"Short": "i16", "Boolean": "i16", "Integer": "i32", "Long": "i64", "Double": "f64"}


def confirm(p, code, k, ver, text, used, msg):
    """a value that is read back as another expression: is there a value for which they differ?"""
    ty = TYPE.get(k)
    if ty is None:
        vs = [sample(code, k, text, ver, p) if code else kstr("LINE")]
    elif ty == "f64":
        vs = [kf64(v) for v in (1.5, -2.25, 1e15, 123456789.125, 0.0009765625, 1.0 / 3, -1e-12, 1e20, 1.7976931348623157e308, float("inf"), float("nan"), -0.0)]
    else:
        n = {"i16": 16, "i32": 32, "i64": 64}[ty]
        vs = [kint(ty, v) for v in (1, -1, 2, 100, -100, 127, 128, 255, 256, 1000, -1000, 20000, (1 << (n - 1)) - 1, -(1 << (n - 1)), (1 << (n - 2)) + 1, -(1 << (n - 2)) - 1, (1 << (n - 3)) + 12345 % (1 << (n - 3)))]
        if k == "Boolean" and not text and rt.versions(p).index(ver) >= rt.versions(p).index("R13"):
            vs = [v for v in vs if 0 <= v.a[1] < 256]
    for j, v in enumerate(vs):
        m = trip(p, [S, (code, k, v), (62, "Short", kint("i16", 7)), E], ver, text, used)
        if m is None and j == 0:
            for a in (-7, 200, -200, 32767, -32768):
                m = m or trip(p, [S, (code, k, v), (62, "Short", kint("i16", a)), E], ver, text, used)
        if m is not None and not rounding(m, v, text):
            return m
    raise Undef("%s: no value is found for which they differ" % msg[:120])


def rounding(m, v, text):
    """the value itself has more decimals than text files hold"""
    return text and is_k(v) and v.a[0] == "f64" and fval(v) == fval(v) and abs(fval(v)) < 1e300 and float("%.12f" % fval(v)) != fval(v)


def decide(p, job, used):
    kind, x, text, ver = job
    if kind == "code":
        k = KIND[x]
        if x == 0:
            xs = [S, (0, "Str", kstr("LINE")), A, E]
        elif x == 999:
            return []
        else:
            xs = [S, (x, k, sample(x, k, text, ver, p)), A, E]
        msg = trip(p, xs, ver, text, used)
        if msg is not None and msg.startswith("the value"):
            msg = confirm(p, x, k, ver, text, used, msg)
        return [("%s %d in %s" % (k, x, name(text, ver)), k + " pair", msg)]
    if kind == "bytes":
        return [("%d bytes in %s" % (x, name(text, ver)), "length of binary data", trip(p, [S, (310, "Binary", mk("vec", tuple(kint("u8", (7 * i + 1) & 255) for i in range(x)))), A7, E], ver, text, used))]
    if kind == "values":
        return [("bytes from %d in %s" % (x, name(text, ver)), "binary data", trip(p, [S, (310, "Binary", mk("vec", tuple(kint("u8", x + i) for i in range(8)))), A7, E], ver, text, used))]
    if kind == "real":
        v = SPECIAL[x]
        return [("real %r in %s" % (v, name(text, ver)), "special real", trip(p, [S, (40, "Double", kf64(v)), A7, E], ver, text, used))]
    if kind == "short":
        k, ty, c = SHORTS[x]
        vs = values(k, ty)
        if k == "Boolean" and not text and ver != "R12":
            vs = [v for v in vs if 0 <= v.a[1] < 256]
        return [("%s %d in %s" % (k, v.a[1], name(text, ver)), "extreme number", trip(p, [S, (c, k, v), A7, E], ver, text, used)) for v in vs]
    if kind == "foreign":
        n, bs, xs = foreign(p)[x]
        return [(n, "text of other programs", reads(p, bs, xs, used))]
    if kind == "bad":
        n, bs = bad(p)[x]
        r = None
        for pc, got, end in load(p, bs, 1, None, used):
            if not (isinstance(end, tuple) and end[0] == "error"):
                r = "is read without an error (%d pairs, then %s)" % (len(got), end)
        return [(n, "malformed text", r)]


def reads(p, bs, xs, used):
    for pc, got, end in load(p, bs, 1, None, used):
        for x, y in zip(xs, got):
            code, kind, v = parts(p, y)
            if not is_k(code) or code.a[1] != x[0] or kind != x[1] or not same(v, x[2], True):
                return "the pair %d/%s is read as %s/%s" % (x[0], show(x[2])[:60], show(code), show(v)[:100])
        if len(got) != len(xs) or end != "end":
            return "%d pairs written, %d read, then %s" % (len(xs), len(got), end if isinstance(end, str) else "an error " + show(end[1])[:80])
    return None


def task(p, js):
    used, out = set(), []
    for j in js:
        try:
            out += decide(p, j, used)
        except (Undef, Bound, rt.Unsupported) as e:
            out.append((str(j), None, str(e)[:200]))
    return out, used


WHERE = "Drawing::save / save_binary to Drawing::load (code_pair_writer, code_pair_value, code_pair_iter)"


def run(p, rep):
    rep.rule = ("the crate's save and save_binary, interpreted abstractly on a list of pairs with symbolic values down to the bytes they write, and load, interpreted on those "
                "bytes, give the same codes, kinds and values, for every group code; malformed lines give an error; the layouts other programs use are accepted")
    js = jobs(p)
    n = 40
    for i, r, err in pmap(lambda i: task(p, js[i * n:(i + 1) * n]), range((len(js) + n - 1) // n)):
        if err:
            report.und("UNDECIDED pairs: %s" % err.strip().splitlines()[-1][:300])
            continue
        rep.functions |= r[1]
        for what, rule, msg in r[0]:
            if rule is None:
                report.und("UNDECIDED %s: %s" % (what, msg))
            else:
                rep.check(msg is None, rule, what, WHERE, "%s: %s" % (what, msg), sample=what)
    rep.floor("Double pair", 300)
    rep.floor("Str pair", 300)
    rep.floor("binary data", 60)
    rep.assume.append("reals in text files are compared after rounding to 12 decimals (the precision the writer has); the rounding itself is not analysed")
