"""Text through text and binary files of every version."""
import report
from pairs import *
from par import pmap

S, E = (0, "Str", kstr("SECTION")), (0, "Str", kstr("EOF"))
A = (62, "Short", mk("sym", "after"))
WHERE = "Drawing::save / save_binary to Drawing::load (escape and un-escape functions of code_pair_value.rs, read_line)"
U5, U6 = (0x10000, 0xFFFFF), (0x100000, 0x10FFFF)
U3A, U3B = (0x800, 0xD7FF), (0xE000, 0xFFFF)
MODES = [("text", True, "R12"), ("text", True, "R2004"), ("text", True, "R2007"), ("text", True, "R2018"), ("binary", False, "R12"), ("binary", False, "R2018")]


def ch(c):
    return {"é": csym("u2", U2), "你": csym("u3", U3A), "豈": csym("u3b", U3B), "𝄞": csym("u4", U5), "\U00100000": csym("u6", U6)}.get(c) or chrk(c)


def word(s):
    return txt(tuple(ch(c) for c in s))


def words():
    """[(group, string)]; é 你 𝄞 stand for any character of 2, 3, 4 bytes"""
    out = [("one character", chr(i)) for i in range(128)] + [("one character", c) for c in "é你豈𝄞\U00100000"]
    out += [("one character between others", "a" + chr(i) + "b") for i in range(128)] + [("one character between others", "a" + c + "b") for c in "é你豈𝄞\U00100000"]
    out += [("one character twice", chr(i) * 2) for i in range(128)]
    sp = "^\\ U+@JMA\x00\x01\n\r\t\x1f\x7f0é你𝄞"
    out += [("two characters", x + y) for x in sp for y in sp]
    out += [("two characters", "x" + x + y + "x") for x in sp for y in sp]
    sp3 = "^\\ U+\né你"
    out += [("three characters", x + y + z) for x in sp3 for y in sp3 for z in sp3]
    for k in range(0, 8):
        for t in ("\\U+00E9"[:k], "\\M+nxxxx"[:k], "\\U+XYZ1"[:k], "\\P{}abc"[:k]):
            for tail in ("", "é", "你", "^", "\n", "\\", "\\é"):
                if k < 7 or not t.startswith("\\U+00E9"):
                    out.append(("backslash sequences", t + tail))
    for n in (3, 5, 8, 17):
        out.append(("longer text", "aé你b^ \\"[:1] * n + "é" * n))
        out.append(("longer text", "^" * n))
        out.append(("longer text", "\\" * n))
        out.append(("longer text", " " * n))
        out.append(("longer text", "é" * n + "\\"))
        out.append(("longer text", "^\n" * n))
    return list(dict.fromkeys(out))


def forms():
    """[(rule, name, version, text, bytes of the line)]: how the format writes it"""
    out = []
    for i in range(32):
        out.append(("control character", "U+%04X" % i, "R2018", chr(i), b"^" + bytes([i + 64])))
    out.append(("control character", "^", "R2018", "^", b"^ "))
    for c in "\x80\xe9\u0416\u4f60\uffee":
        out.append(("escape of a character", "U+%04X" % ord(c), "R2004", c, b"\\U+%04X" % ord(c)))
        out.append(("escape of a character", "U+%04X" % ord(c), "R12", c, b"\\U+%04X" % ord(c)))
        out.append(("UTF-8", "U+%04X" % ord(c), "R2007", c, c.encode()))
        out.append(("UTF-8", "U+%04X" % ord(c), "R2018", c, c.encode()))
    return out


def readings():
    """[(name, R2007 and later?, bytes, text)]: what other programs write"""
    out = [("\\U+00e9 with lower case digits", False, b"\\U+00e9", "\xe9"), ("\\U+ inside text", False, b"a\\U+00E9b\\U+4F60", "a\xe9b\u4f60"), ("a code page byte", False, b"caf\xe9", "caf\xe9"),
           ("the euro sign", False, b"\x80", "\u20ac"), ("UTF-8", True, "caf\xe9\u4f60".encode(), "caf\xe9\u4f60"), ("\\U+ in a UTF-8 file", True, b"\\U+00E9", "\\U+00E9"),
           ("spaces around text", False, b"  a  ", "  a  "), ("a tab", False, b"\ta", "\ta")]
    return out


def task2(p, _):
    used, out = set(), []
    for rule, n, ver, s, bs in forms():
        try:
            want = tuple(kint("u8", b) for b in b"  1\r\n" + bs + b"\r\n")
            msg = None
            for pc, got, ret in save(p, [pair(p, 1, "Str", kstr(s))], ver, True, used):
                if tuple(got) != want:
                    msg = "is written as %s, the format has %s" % (bytes(b.a[1] if is_k(b) else 63 for b in got), bs)
            out.append((rule, "writing %s in %s" % (n, ver), msg))
        except (Undef, Bound, rt.Unsupported) as e:
            out.append((None, n, str(e)[:200]))
    for n, utf8, bs, s in readings() + [("control character %s" % n, False, bs, s) for r, n, v, s, bs in forms() if r == "control character"]:
        try:
            raw = b"  0\r\nSECTION\r\n  1\r\n" + bs + b"\r\n  0\r\nEOF\r\n"
            msg = None
            for pc, got, end in load(p, tuple(kint("u8", b) for b in raw), 1, 1 if utf8 else None, used):
                vs = [parts(p, y)[2] for y in got]
                if end != "end" or len(vs) != 3 or vs[1] is not kstr(s):
                    msg = "reads as %s%s" % (show(vs[1])[:60] if len(vs) > 1 else "nothing", "" if end == "end" else ", then %s" % (end,))
            out.append(("text of other programs", "%s in a %s file" % (n, "UTF-8" if utf8 else "code page"), msg))
        except (Undef, Bound, rt.Unsupported) as e:
            out.append((None, n, str(e)[:200]))
    return out, used


def shown(s):
    return "".join(c if c in "é你豈𝄞" or 32 <= ord(c) < 127 else "<%02X>" % ord(c) for c in s)


def task(p, js):
    used, out = set(), []
    for (group, s), (fmt, text, ver) in js:
        try:
            old = text and rt.versions(p).index(ver) < rt.versions(p).index("R2007")
            x = word(s)
            msg = trip(p, [S, (1, "Str", x), A, E], ver, text, used, ascii_only=old)
            out.append((group, s, fmt, ver, msg))
        except (Undef, Bound, rt.Unsupported) as e:
            out.append((None, s, fmt, ver, str(e)[:200]))
    return out, used


def run(p, rep):
    rep.rule = ("save/save_binary and load, interpreted abstractly on texts over the characters U+0000..U+007F and symbols for any character of 2, 3 and 4 bytes, give back the "
                "text; text files up to R2004 contain ASCII bytes only")
    js = [(w, m) for w in words() for m in MODES if (m[2] not in ("R2004", "R2007") or w[0] in ("one character", "backslash sequences")) and
          not (m[0] == "text" and m[2] in ("R12", "R2004") and (w[0] != "one character" and any(c in "𝄞\U00100000" for c in w[1]) or "\\U+" in w[1]))]
    n = 60
    for i, r, err in pmap(lambda i: task(p, js[i * n:(i + 1) * n]), range((len(js) + n - 1) // n)):
        if err:
            report.und("UNDECIDED texts: %s" % err.strip().splitlines()[-1][:300])
            continue
        rep.functions |= r[1]
        for group, s, fmt, ver, msg in r[0]:
            if group is None:
                report.und("UNDECIDED '%s' in %s %s: %s" % (shown(s), fmt, ver, msg))
                continue
            wide = fmt == "text" and ver in ("R12", "R2004") and any(c in "𝄞\U00100000" for c in s)
            key = ("a character above U+FFFF in a text file up to R2004: " if wide else "") + "'%s' in %s %s" % (shown(s), fmt, ver)
            rep.check(msg is None, group, key, WHERE, "the text '%s' in a %s file of %s: %s" % (shown(s), fmt, ver, msg), sample=key)
    for i, r, err in pmap(lambda i: task2(p, i), range(1)):
        if err:
            report.und("UNDECIDED texts: %s" % err.strip().splitlines()[-1][:300])
            continue
        rep.functions |= r[1]
        for rule, n, msg in r[0]:
            if rule is None:
                report.und("UNDECIDED %s: %s" % (n, msg))
            else:
                rep.check(msg is None, rule, n, WHERE, "%s %s" % (n, msg), sample=n)
    rep.floor("one character", 400)
    rep.floor("two characters", 1000)
    rep.assume.append("the text does not itself contain the three characters \\U+, with which text files up to R2004 write other characters")
