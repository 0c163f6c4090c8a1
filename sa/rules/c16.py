"""Handles, dates, times and ids in their file form."""
import datetime
import uuid as pyuuid
from fractions import Fraction as Q

import pairs
import report
import rt
from codec import *
from par import pmap

DAY = 86400
BASE = datetime.date(1900, 1, 1)
LAST = (datetime.date(9999, 12, 31) - BASE).days * DAY + DAY - 1
S = mk("sym", "seconds")
U = mk("sym", "uuid")
H = "handle::Handle"


def fn(p, what, ret, *args, having=None):
    """the one function with this signature (names may change)"""
    bs = [b for b in p.bodies.values() if b.isfn and b.argc == len(args) and ret(str(b.locals[0])) and all(f(str(b.locals[i + 1])) for i, f in enumerate(args))]
    if having and len(bs) != 1:
        bs = [b for b in bs if b.name.rsplit("::", 1)[-1] == having]
    if len(bs) != 1:
        raise Undef("the function %s is not identified" % what)
    return bs[0]


class Times(Codec):
    """dates as seconds after 1900-01-01 00:00:00, durations as seconds, UUIDs as their 36 characters"""
    def __init__(self, p):
        super().__init__(p)
        self.events_off = True
        M = self.models

        def reg(f, *names):
            for n in names:
                M[n] = lambda it, st, fr, a, i: [(st, f(*[it.val(st, x) for x in a]))]

        def sec(x, op):
            if x.op == "phi":
                return mk("phi", tuple((g, sec(y, op)) for g, y in x.a[0]))
            if x.op != op:
                raise Undef("a date or duration the analysis does not know: %s" % show(x)[:100])
            return x.a[0]

        def ar(op, a, b):
            if is_k(a) and is_k(b):
                x, y = a.a[1], b.a[1]
                return kint("i64", x + y if op == "Add" else x - y if op == "Sub" else x * y)
            if is_k(b) and b.a[1] == (1 if op == "Mul" else 0):
                return a
            if is_k(a) and op == "Add" and a.a[1] == 0:
                return b
            return mk(op, a, b)

        def add(a, b):
            return ar("Add", a, b)

        def sub(a, b):
            return ar("Sub", a, b)

        def ymd(tz, y, mo, d, h, mi, s):
            ks = [x.a[1] if is_k(x) else None for x in (y, mo, d, h, mi, s)]
            if None in ks:
                raise Undef("a date of variable parts")
            try:
                n = (datetime.date(*ks[:3]) - BASE).days * DAY + ks[3] * 3600 + ks[4] * 60 + ks[5]
            except ValueError:
                raise Undef("no date: %s" % ks)
            return mk("dt", kint("i64", n))
        reg(ymd, "chrono::TimeZone::with_ymd_and_hms", "chrono::offset::TimeZone::with_ymd_and_hms")
        for n in ("LocalResult::<T>", "MappedLocalTime::<T>"):
            reg(lambda x: x, "chrono::offset::%s::unwrap" % n)
        TD = ("chrono::TimeDelta", "chrono::Duration", "chrono::time_delta::TimeDelta")
        DT = ("chrono::DateTime", "chrono::datetime::DateTime")
        for d in DT:
            reg(lambda a, b: mk("td", sub(sec(a, "dt"), sec(b, "dt"))), d + "::<Tz>::signed_duration_since", *["<%s<Tz> as std::ops::Sub%s>::sub" % (d, x) for x in ("", "<%s<Tz>>" % d, "<&%s<Tz>>" % d)])
            reg(lambda a: a, "<%s<Tz> as std::clone::Clone>::clone" % d)
            for t in TD:
                reg(lambda a, b: mk("dt", add(sec(a, "dt"), sec(b, "td"))), "<%s<Tz> as std::ops::Add<%s>>::add" % (d, t))
                reg(lambda a, b: mk("dt", sub(sec(a, "dt"), sec(b, "td"))), "<%s<Tz> as std::ops::Sub<%s>>::sub" % (d, t))
                reg(lambda a, b: some(mk("dt", add(sec(a, "dt"), sec(b, "td")))), d + "::<Tz>::checked_add_signed")
        for t in TD:
            reg(lambda a: sec(a, "td"), t + "::num_seconds")
            reg(lambda: mk("td", kint("i64", 0)), t + "::zero")
            for n, k in (("seconds", 1), ("minutes", 60), ("hours", 3600), ("days", DAY)):
                reg(lambda a, k=k: mk("td", ar("Mul", a, kint("i64", k))), t + "::" + n)
                reg(lambda a, k=k: some(mk("td", ar("Mul", a, kint("i64", k)))), t + "::try_" + n)
        D = "std::time::Duration::"
        reg(lambda a: sec(a, "dur"), D + "as_secs")
        reg(lambda a: mk("cast", sec(a, "dur"), "u64", "f64"), D + "as_secs_f64")
        reg(lambda a: mk("dur", a), D + "from_secs")
        reg(lambda a: mk("dur", mk("cast", a, "f64", "u64")), D + "from_secs_f64")
        for n in ("parser", "builder", "external"):
            M["uuid::%s::<impl uuid::Uuid>::parse_str" % n] = self.u_parse
            M["uuid::%s::<impl uuid::Uuid>::try_parse" % n] = self.u_parse
            reg(lambda: mk("uuidk", 0), "uuid::%s::<impl uuid::Uuid>::nil" % n)
        M["uuid::Uuid::parse_str"] = M["uuid::Uuid::try_parse"] = self.u_parse
        reg(lambda: mk("uuidk", 0), "uuid::Uuid::nil", "<uuid::Uuid as std::default::Default>::default")

    def u_parse(self, it, st, fr, args, info):
        out = []
        for s, v in self.split(st, self.val(st, args[0])):
            es = elems(v)
            if es is None:
                raise Undef("UUID of %s" % show(v)[:80])
            if all(is_k(e) for e in es):
                x = txt(es).a[1]
                y = x[9:] if x.startswith("urn:uuid:") else x[1:-1] if x[:1] == "{" and x[-1:] == "}" else x
                good = len(y) == 32 or [i for i, c in enumerate(y) if c == "-"] == [8, 13, 18, 23] and len(y) == 36
                try:
                    r = ok(mk("uuidk", int(pyuuid.UUID(y)))) if good else None
                except ValueError:
                    r = None
                out.append((s, r or err(mk("sym", "uuid::Error"))))
            else:
                e2 = es[1:-1] if len(es) == 38 and es[0] is chrk("{") and es[-1] is chrk("}") else es
                u = next((e.a[0] for e in es if e.op == "uuidc"), None)
                good = u is not None and (e2 == utext(u) or e2 == tuple(e for e in utext(u) if e.op == "uuidc"))
                out.append((s, ok(u) if good else err(mk("sym", "uuid::Error"))))
        return out

    def placeholder(self, st, fr, x, flags, wd, pr, info):
        kind, a, t = x.a
        if t[0] == "adt" and t[1].startswith("uuid") and kind in ("display", "lower_hex", "upper_hex"):
            v = self.val(st, a)
            if v.op == "uuidk":
                y = str(pyuuid.UUID(int=v.a[0]))
                return [(st, tuple(chrk(c) for c in (y.upper() if kind == "upper_hex" else y)))]
            return [(st, utext(v))]
        return super().placeholder(st, fr, x, flags, wd, pr, info)


def utext(u):
    out = []
    for k in range(36):
        if k in (8, 13, 18, 23):
            out.append(chrk("-"))
        else:
            e = mk("uuidc", u, k)
            CRANGE.setdefault(e, ((0x30, 0x39), (0x61, 0x66)))
            out.append(e)
    return tuple(out)


# ------------------------------------------------------------------ values as affine functions of the seconds, with an error bound
class NoBound(Exception):
    pass


class Aff:
    """a*s+b within e, for lo <= s <= hi"""
    def __init__(self, a, b, e, dom):
        self.a, self.b, self.e, self.dom = Q(a), Q(b), Q(e), dom

    def top(self):
        return max(abs(self.a * s + self.b) for s in self.dom) + self.e

    def range(self):
        xs = [self.a * s + self.b for s in self.dom]
        return min(xs) - self.e, max(xs) + self.e

    def integral(self):
        return self.a.denominator == self.b.denominator == 1

    def fl(self):
        """after one rounding to 53 bits"""
        if self.e == 0 and self.integral() and self.top() <= 2 ** 53:
            return self
        return Aff(self.a, self.b, self.e + self.top() * Q(1, 2 ** 53), self.dom)


def aff(t, dom, atoms):
    """abstract value of a numeric term"""
    if t is S:
        return Aff(1, 0, 0, dom)
    if is_k(t):
        v = fval(t) if t.a[0] == "f64" else t.a[1]
        return Aff(0, Q(v), 0, dom)
    if t.op == "phi":
        live = []
        for g, x in t.a[0]:
            g2 = B.restrict(g, lambda at: truth(at, dom, atoms))
            if g2 == 1:
                return aff(x, dom, atoms)
            if g2:
                live.append(x)
        rs = [aff(x, dom, atoms) for x in live]
        if rs and all((r.a, r.b, r.e) == (rs[0].a, rs[0].b, rs[0].e) for r in rs):
            return rs[0]
        raise NoBound("which value is chosen is not decided")
    if t.op in ("Add", "Sub", "Mul", "Div"):
        x, y = aff(t.a[0], dom, atoms), aff(t.a[1], dom, atoms)
        if t.op in ("Add", "Sub"):
            k = 1 if t.op == "Add" else -1
            r = Aff(x.a + k * y.a, x.b + k * y.b, x.e + y.e, dom)
        elif t.op == "Mul":
            if y.a or y.e:
                x, y = y, x
            if y.a or y.e:
                raise NoBound("product of two variables")
            r = Aff(x.a * y.b, x.b * y.b, x.e * abs(y.b), dom)
        else:
            if y.a or y.e or y.b == 0:
                raise NoBound("division by a variable")
            if isfloat(t):
                r = Aff(x.a / y.b, x.b / y.b, x.e / abs(y.b), dom)
            else:
                raise NoBound("integer division")
        return r.fl() if isfloat(t) else r
    if t.op == "neg":
        x = aff(t.a[0], dom, atoms)
        return Aff(-x.a, -x.b, x.e, dom)
    if t.op == "cast":
        x, ts, td = aff(t.a[0], dom, atoms), t.a[1], t.a[2]
        if td == "f64":
            return x.fl()
        if ts == "f64":
            if x.e == 0 and x.integral():
                return x
            raise NoBound("a real is cut off to a whole number where it may be just below one")
        return x
    if t.op == "rounded":
        x = aff(t.a[0], dom, atoms)
        return Aff(x.a, x.b, x.e + Q(1, 2 * 10 ** t.a[1]), dom).fl()
    if t.op == "call" and t.a[0].rsplit("::", 1)[-1] in ("round", "round_ties_even"):
        x = aff(t.a[2][0], dom, atoms)
        if x.integral() and x.e < Q(1, 2):
            return Aff(x.a, x.b, 0, dom)
        raise NoBound("rounding is not decided")
    raise NoBound("operation %s" % t.op)


def isfloat(t):
    if is_k(t):
        return t.a[0] == "f64"
    if t.op in ("Add", "Sub", "Mul", "Div", "neg"):
        return any(isfloat(x) for x in t.a if hasattr(x, "op"))
    if t.op == "phi":
        return any(isfloat(x) for _, x in t.a[0])
    if t.op == "cast":
        return t.a[2] == "f64"
    return t.op in ("rounded", "call")


def strip_td(t):
    return t.a[0] if t.op in ("td", "dt", "dur") else t


def truth(at, dom, atoms):
    """True, False or None for a condition"""
    def rel(x, y):
        x, y = aff(strip_td(x), dom, atoms), aff(strip_td(y), dom, atoms)
        d = Aff(x.a - y.a, x.b - y.b, x.e + y.e, dom)
        return d.range()
    try:
        if at.op == "eq" and at.a[0].op == "discr" and at.a[0].a[0].op == "cmp" and is_k(at.a[1]):
            lo, hi = rel(*at.a[0].a[0].a[:2])
            k = at.a[1].a[1]
            k = k - 256 if k > 127 else k
            sign = -1 if hi < 0 else 1 if lo > 0 else 0 if lo == hi == 0 else None
            return None if sign is None and not (k == 0 and False) else sign == k
        if at.op in ("eq", "lt", "le", "gt", "ge") and len(at.a) == 2:
            lo, hi = rel(*at.a)
            if at.op == "eq":
                return False if lo > 0 or hi < 0 else True if lo == hi == 0 else None
            if at.op in ("gt", "ge"):
                lo, hi = -hi, -lo
            strict = at.op in ("lt", "gt")
            if hi < 0 or hi <= 0 and not strict:
                return True
            if lo > 0 or lo >= 0 and strict:
                return False
    except NoBound:
        pass
    return None


def conc(t, s):
    """the value of a term for one number of seconds, with the rounding of the hardware"""
    if t is S:
        return s
    if is_k(t):
        return fval(t) if t.a[0] == "f64" else t.a[1]
    if t.op == "phi":
        for g, x in t.a[0]:
            if B.restrict(g, lambda at: ctruth(at, s)) == 1:
                return conc(x, s)
        raise NoBound("phi")
    if t.op in ("Add", "Sub", "Mul", "Div"):
        x, y = conc(t.a[0], s), conc(t.a[1], s)
        if t.op == "Div":
            if isinstance(x, int):
                raise NoBound("integer division")
            return x / y
        return x + y if t.op == "Add" else x - y if t.op == "Sub" else x * y
    if t.op == "cast":
        x = conc(t.a[0], s)
        return float(x) if t.a[2] == "f64" else int(x)
    if t.op == "rounded":
        return float("%.*f" % (t.a[1], conc(t.a[0], s)))
    if t.op == "call":
        n = t.a[0].rsplit("::", 1)[-1]
        x = conc(t.a[2][0], s)
        import math
        if n in ("floor", "ceil", "trunc"):
            return float(getattr(math, n)(x))
        if n in ("round", "round_ties_even"):
            return float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)
    raise NoBound(t.op)


def ctruth(at, s):
    try:
        if at.op == "eq" and at.a[0].op == "discr" and at.a[0].a[0].op == "cmp":
            x, y = (conc(strip_td(z), s) for z in at.a[0].a[0].a[:2])
            k = at.a[1].a[1]
            return ((x > y) - (x < y)) == (k - 256 if k > 127 else k)
        x, y = (conc(strip_td(z), s) for z in at.a)
        return {"eq": x == y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[at.op]
    except (NoBound, KeyError, AttributeError):
        return None


SAMPLES = sorted({0, 1, 2, 59, 60, 61, 3599, 3600, 86399, 86400, 86401, LAST} | {(i * 7919 * 8641) % LAST for i in range(4000)} | {i * DAY for i in range(0, 80000, 97)} | set(range(0, 4000)) |
                 {3155752715 + i for i in range(300)})


def same_seconds(t, top, what):
    """None when term t is S for every 0 <= S <= top; else the counterexample"""
    try:
        for dom in ((0, 0), (1, top)):
            r = aff(t, dom, None)
            if (r.a, r.b, r.e) != (1, 0, 0) and not (dom[0] == dom[1] and r.e == 0 and r.a * dom[0] + r.b == dom[0]):
                raise NoBound("the value is %s*seconds + %s within %s" % (r.a, float(r.b), float(r.e)))
        return None
    except NoBound as e:
        for s in SAMPLES:
            if s > top:
                break
            try:
                if conc(t, s) != s:
                    return "%s of %d seconds comes back as %d seconds" % (what, s, conc(t, s))
            except NoBound:
                break
        raise Undef("%s: %s" % (what, e))


def call(p, b, args, used, st=None):
    it = Times(p)
    r = it.run(b, args=args, st=st or State())
    used |= it.analysed
    return it, [(s2, x) for s, v in r for s2, x in it.split(s, it.val(s, v))]


def one(p, b, args, used):
    it = Times(p)
    r = it.run(b, args=args, st=State())
    used |= it.analysed
    if len(r) != 1:
        raise Undef("several results of %s" % b.name)
    return it.val(r[0][0], r[0][1])


def has(*xs):
    return lambda t: all(x in t for x in xs)


def is_f64(t):
    return t == str(("float", "f64"))


def dates(p, tz, used):
    w = fn(p, "giving a %s date as a number" % tz, is_f64, lambda t: "DateTime" in t and tz in t and "&" not in t, having="as_double_" + tz.lower())
    r = fn(p, "reading a %s date" % tz, lambda t: "DateTime" in t and tz in t, is_f64, having="as_datetime_" + tz.lower())
    f = one(p, w, [mk("dt", S)], used)
    out = []
    for how, x in (("a binary file", f), ("a text file", mk("rounded", f, 12))):
        d = one(p, r, [x], used)
        if d.op == "phi":
            d = mk("dt", mk("phi", tuple((g, y.a[0] if y.op == "dt" else y) for g, y in d.a[0])))
        if d.op != "dt":
            raise Undef("the date read is %s" % show(d)[:100])
        t = lift(d.a[0])
        out.append(("a %s date in %s" % (tz, how), "date", r, same_seconds(t, LAST, "1900-01-01 00:00:00 %s plus" % tz)))
    # a number of days, as other programs write it
    for day, h, mi, s, v in ((datetime.date(1999, 12, 31), 21, 58, 35, 2451544.91568287), (datetime.date(2000, 1, 1), 0, 0, 0, 2451545.0), (datetime.date(1900, 1, 1), 12, 0, 0, 2415021.5),
                             (datetime.date(2024, 2, 29), 23, 59, 59, 2460370.99998843), (datetime.date(1970, 1, 1), 6, 0, 0, 2440588.25), (datetime.date(2038, 1, 19), 3, 14, 8, 2465443.13481481)):
        want = (day - BASE).days * DAY + h * 3600 + mi * 60 + s
        d = one(p, r, [kf64(v)], used)
        got = conc(lift(strip_td(d)), 0) if d.op == "dt" else None
        if d.op == "phi":
            got = next(conc(lift(strip_td(x)), 0) for g, x in d.a[0] if B.restrict(g, lambda at: ctruth(at, 0)) == 1)
        out.append(("%r as a %s date" % (v, tz), "day number", r, None if got == want else "is read as %s seconds after 1900, it is %d" % (got, want)))
    return out


def lift(t):
    """take td/dt apart inside choices"""
    if t.op == "phi":
        return mk("phi", tuple((g, lift(strip_td(x))) for g, x in t.a[0]))
    if t.op in ("Add", "Sub") and any(x.op == "phi" for x in t.a if hasattr(x, "op")):
        return t
    return strip_td(t)


def durations(p, used):
    w = fn(p, "giving a duration as a number", is_f64, lambda t: "std::time::Duration" in t, having="duration_as_double")
    r = fn(p, "reading a duration", lambda t: "std::time::Duration" in t, is_f64, having="as_duration")
    f = one(p, w, [mk("dur", S)], used)
    out = []
    top = 10 ** 11
    for how, x in (("a binary file", f), ("a text file", mk("rounded", f, 12))):
        if how == "a text file" and f.op == "cast" and f.a[1] in INTS:
            x = f          # a whole number has no decimals to lose
        d = one(p, r, [x], used)
        if d.op != "dur":
            raise Undef("the duration read is %s" % show(d)[:100])
        out.append(("a duration in %s" % how, "duration", r, same_seconds(d.a[0], top, "a duration")))
    return out


def uuids(p, used):
    w = fn(p, "giving a UUID as text", lambda t: t == str(("adt", "std::string::String")), lambda t: "Uuid" in t, having="uuid_string")
    r = fn(p, "reading a UUID", lambda t: "Uuid" in t and "Result" not in t, lambda t: "std::string::String" in t or "str" in t, having="as_uuid")
    st = State()
    st.store[("O", "u")] = U
    it, res = call(p, w, [mk("ref", ("O", "u"), ())], used, st)
    out = []
    texts = [("as written", v) for _, v in res] + [("plain", txt(utext(U))), ("in braces", txt((chrk("{"),) + utext(U) + (chrk("}"),)))]
    for n, v in texts:
        _, got = call(p, r, [v], used)
        bad = [x for _, x in got if x is not U]
        out.append(("a UUID " + n, "UUID", r, None if got and not bad else "is read as %s" % show(bad[0])[:100] if bad else "is not read"))
    k = "a2a7a23e-975b-4b54-968c-150d4c32a9b6"
    for n, v, want in (("upper case", k.upper(), k), ("upper case in braces", "{" + k.upper() + "}", k), ("malformed", "xyz", None), ("empty", "", None), ("empty braces", "{}", None), ("half braces", "{" + k, None), ("too short", k[:-1], None)):
        _, got = call(p, r, [kstr(v)], used)
        w2 = mk("uuidk", int(pyuuid.UUID(want)) if want else 0)
        out.append(("a UUID " + n, "UUID", r, None if all(x is w2 for _, x in got) else "is read as %s" % show(got[0][1])[:100]))
    return out


def handle_fns(p):
    w = fn(p, "giving a handle as text", lambda t: t == str(("adt", "std::string::String")), lambda t: "handle::Handle" in t, having="as_string")
    r = fn(p, "reading a handle", lambda t: "handle::Handle" in t and "Result" in t, lambda t: "code_pair::CodePair'" in t and "Value" not in t, having="as_handle")
    return w, r


def read_handle(p, r, text, used):
    st = State()
    st.store[("O", "pair")] = pairs.pair(p, 5, "Str", kstr(text) if isinstance(text, str) else text)
    it, got = call(p, r, [mk("ref", ("O", "pair"), ())], used, st)
    out = set()
    for s, x in got:
        if x.op == "agg" and x.a[0] == RESULT and x.a[1] == 1:
            out.add("error")
        elif x.op == "agg" and x.a[0] == RESULT and x.a[2][0].op == "agg" and x.a[2][0].a[0] == H:
            out.add(x.a[2][0].a[2][0])
        else:
            raise Undef("handle read as %s" % show(x)[:100])
    return out


def handles_written(p, used):
    w, r = handle_fns(p)
    arg = (lambda h: mk("agg", H, 0, (h,))) if "ref" not in str(w.locals[1]) else None
    if arg is None:
        raise Undef("handle by reference")
    out = []
    vals = [0, 1, 9, 10, 15, 16, 255, 256] + [1 << (4 * k) for k in range(2, 16)] + [(1 << (4 * k)) - 1 for k in range(3, 17)] + [0x123456789ABCDEF0, 0xFEDCBA9876543210]
    for v in vals:
        _, got = call(p, w, [arg(kint("u64", v))], used)
        bad = [x for _, x in got if x is not kstr("%X" % v)]
        out.append(("handle %X as text" % v, "handle written", w, None if got and not bad else "is written as %s" % (show(bad[0])[:80] if bad else "nothing")))
        for _, x in got:
            if x.op == "k":
                b = read_handle(p, r, x.a[1], used)
                out.append(("handle %X written and read" % v, "handle round trip", r, None if b == {kint("u64", v)} else "is read as %s" % [show(y) if not isinstance(y, str) else y for y in b]))
    try:
        t = one(p, w, [arg(mk("sym", "h"))], used)
        out.append(("any handle as text", "handle written", w, None if t is txt((mk("hexs", mk("sym", "h"), "u64"),)) else "is written as %s" % show(t)[:100]))
    except Undef:
        pass                # written another way: the numbers above stand for it
    return out


def handles_read(p, n, used):
    _, r = handle_fns(p)
    out = []
    for pos in range(n):
        for fill in "0A":
            for c in "0123456789ABCDEFabcdef":
                x = fill * pos + c + fill * (n - pos - 1)
                b = read_handle(p, r, x, used)
                want = {kint("u64", int(x, 16))}
                out.append(("handle text %s" % x, "handle read", r, None if b == want else "is read as %s" % [show(y) if not isinstance(y, str) else y for y in b]))
    return out


def handles_odd(p, used):
    _, r = handle_fns(p)
    out = []
    for x, v in ((" 1F", 0x1F), ("1F  ", 0x1F), ("\t2a ", 0x2A), ("00000000000000FF", 0xFF), ("0", 0)):
        b = read_handle(p, r, x, used)
        out.append(("handle text %r" % x, "handle read", r, None if b == {kint("u64", v)} else "is read as %s" % [show(y) if not isinstance(y, str) else y for y in b]))
    for x in ("G", "1G", "0x1F", "-1", "+1", "1 2", "1.0", "AB,CD", "ffffg"):
        b = read_handle(p, r, x, used)
        out.append(("handle text %r" % x, "malformed handle", r, None if b == {"error"} else "is read as %s" % [show(y) if not isinstance(y, str) else y for y in b]))
    return out


def task(p, j):
    used, out = set(), []
    try:
        if j[0] == "dates":
            out = dates(p, j[1], used)
        elif j[0] == "hread":
            out = handles_read(p, j[1], used)
        else:
            out = {"dur": durations, "uuid": uuids, "hw": handles_written, "hodd": handles_odd}[j[0]](p, used)
    except (Undef, Bound, NoBound, rt.Unsupported) as e:
        return [(str(j), None, None, str(e)[:300])], used
    return [(a, b, "%s (%s)" % (f.name, f.span), m) for a, b, f, m in out], used


def run(p, rep):
    rep.rule = ("the functions that give handles, dates, durations and UUIDs their file form and read it back, interpreted abstractly one on the result of the other: the composition is "
                "the identity (dates and durations: real arithmetic bounded by an affine function of the seconds and its rounding error; handles: digit by digit)")
    js = [("dates", "Utc"), ("dates", "Local"), ("dur",), ("uuid",), ("hw",), ("hodd",)] + [("hread", n) for n in range(1, 17)]
    for i, r, e in pmap(lambda i: task(p, js[i]), range(len(js))):
        if e:
            report.und("UNDECIDED %s: %s" % (js[i], e.strip().splitlines()[-1][:300]))
            continue
        rep.functions |= r[1]
        for what, rule, b, msg in r[0]:
            if rule is None:
                report.und("UNDECIDED %s: %s" % (what, msg))
            else:
                rep.check(msg is None, rule, what, b, "%s: %s" % (what, msg), sample=what)
    rep.floor("handle read", 3000)
    rep.floor("handle written", 10)
    rep.floor("date", 2)
    rep.assume += ["chrono's calendar (the date a number of seconds after another) and the uuid crate's parsing and formatting are taken as documented",
                   "the offset of the local time zone is taken to be the same for writing and reading"]
