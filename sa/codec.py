"""Characters and bytes: abstract interpretation of the encoders and decoders over strings whose length is known and whose
characters, digits and bytes are constants or symbols with a known range ("any character above U+007F", "the third decimal
of x", "the second byte of n"). A string is a constant or txt(elements); an element is a character or a piece (a run of
characters such as the decimal representation of an integer). A byte is a constant or the i-th byte of a value."""
import time
import models
import unroll
from interp import *
from terms import *

ASCII = (0, 0x7F)
U2, U3, U4 = (0x80, 0x7FF), (0x800, 0xFFFF), (0x10000, 0x10FFFF)
DEC = ((0x2D, 0x2D), (0x30, 0x39))
HEX = ((0x30, 0x39), (0x41, 0x46))
CRANGE = {}                 # symbolic character -> ranges


def csym(name, *ranges):
    t = mk("sym", "chr:" + name)
    CRANGE[t] = ranges
    return t


def cls(e):
    """ranges of code points element e may hold (for a byte element: of byte values); None: not an element"""
    if e.op == "k" and e.a[0] == "char":
        c = e.a[1] if isinstance(e.a[1], int) else ord(e.a[1])
        return ((c, c),)
    if e.op == "k" and e.a[0] == "u8":
        return ((e.a[1], e.a[1]),)
    if e in CRANGE:
        return CRANGE[e]
    if e.op == "num":
        return (((0x20, 0x20),) if e.a[2] else ()) + DEC
    if e.op == "fint":
        return DEC
    if e.op == "fdig":
        return ((0x30, 0x39),)
    if e.op in ("hexd", "hexs"):
        return HEX if not e.op == "hexd" or e.a[2] == "X" else ((0x30, 0x39), (0x61, 0x66))
    if e.op == "cb":
        return cls(e.a[0])
    if e.op == "ub":
        return ((0xC2, 0xF4),) if e.a[1] == 0 else ((0x80, 0xBF),)
    if e.op == "cast" and e.a[1] in ("char", "u8") and e.a[2] in ("u8", "u16", "u32", "i32", "char", "usize", "u64", "i64", "i16"):
        r = cls(e.a[0])
        if r is None or e.a[2] in ("u8",) and max(h for _, h in r) > 0xFF:
            return None
        return r
    return None


PIECES = ("num", "fint", "hexs", "fraw")


def chrk(c):
    return kchar(c if not isinstance(c, str) else ord(c))


def elems(v):
    """elements of a string or None"""
    if v.op == "k" and v.a[0] == "str":
        return tuple(chrk(c) for c in v.a[1])
    if v.op == "txt":
        return v.a[0]
    if v.op == "concat":
        a, b = elems(v.a[0]), elems(v.a[1])
        return None if a is None or b is None else a + b
    return None


def txt(es):
    es = tuple(es)
    if all(is_k(e) for e in es):
        return kstr("".join(chr(cls(e)[0][0]) for e in es))
    return mk("txt", es)


def strip_all(x, y):
    while y and x.startswith(y):
        x = x[len(y):]
    return x


def width(e):
    """bytes of an element in UTF-8, None for a run of unknown length"""
    if e.op in PIECES:
        return None
    r = cls(e)
    if r is None:
        return None
    for i, top in enumerate((0x7F, 0x7FF, 0xFFFF, 0x10FFFF)):
        if r[-1][1] <= top and r[0][0] > (-1, 0x7F, 0x7FF, 0xFFFF)[i]:
            return i + 1
    return None


def to_bytes(es):
    out = []
    for e in es:
        w = width(e)
        if is_k(e):
            out += [kint("u8", b) for b in chr(cls(e)[0][0]).encode()]
        elif w in (1, None):
            out.append(mk("cb", e))
        else:
            out += [mk("ub", j, w, e) for j in range(w)]
    return tuple(out)


def from_bytes(bs):
    """characters of a UTF-8 byte sequence, None when it is not known to be valid"""
    out, i = [], 0
    while i < len(bs):
        b = bs[i]
        if is_k(b):
            n = next((n for n in (1, 2, 3, 4) if i + n <= len(bs) and all(is_k(x) for x in bs[i:i + n]) and ok_utf8(bs[i:i + n])), None)
            if n is None:
                return None
            out += [chrk(c) for c in bytes(x.a[1] for x in bs[i:i + n]).decode()]
            i += n
        elif b.op == "cb":
            out.append(b.a[0])
            i += 1
        elif b.op == "ub":
            j, w, e = b.a
            if j or [x for x in bs[i:i + w]] != [mk("ub", k, w, e) for k in range(w)]:
                return None
            out.append(e)
            i += w
        else:
            return None
    return out


def ok_utf8(bs):
    try:
        bytes(x.a[1] for x in bs).decode()
        return True
    except UnicodeDecodeError:
        return False


def byte_of(v, n, i):
    if is_k(v):
        if v.a[0] in INTS:
            return kint("u8", (v.a[1] >> (8 * i)) & 255)
        if v.a[0] == "f64":
            return kint("u8", struct.pack("<d", fval(v))[i])
    if n == "u8":
        return v
    if v.op == "cast" and v.a[2] == n and v.a[1] == "u8":
        return v.a[0] if i == 0 else kint("u8", 0)
    return mk("byte", v, n, i)


SIZE = {"i16": 2, "u16": 2, "i32": 4, "u32": 4, "i64": 8, "u64": 8, "f32": 4, "f64": 8, "u8": 1, "i8": 1, "usize": 8, "i128": 16, "u128": 16}


def from_le(n, bs):
    if all(is_k(b) for b in bs):
        raw = bytes(b.a[1] for b in bs)
        if n in INTS:
            return kint(n, int.from_bytes(raw, "little", signed=n[0] == "i"))
        if n == "f64":
            return kf64(struct.unpack("<d", raw)[0])
    if n in ("i16", "i32", "i64", "u16", "u32", "u64") and len(bs) > 1 and not is_k(bs[0]) and all(is_k(b) and b.a[1] == 0 for b in bs[1:]):
        return mk("cast", bs[0], "u8", n)
    if bs and bs[0].op == "byte" and bs[0].a[1] == n and tuple(bs) == tuple(mk("byte", bs[0].a[0], n, i) for i in range(len(bs))):
        return bs[0].a[0]
    return mk("le", n, tuple(bs))


UTF8, W1252 = mk("sym", "static:encoding_rs::UTF_8"), mk("sym", "static:encoding_rs::WINDOWS_1252")


class Undef(Exception):
    pass


class OutOfStep(Exception):
    """the reader takes a part of a number for something else"""


class Codec(unroll.Unroll):
    """OUT: bytes written; IN: bytes to read and position"""
    LIMIT = 5000
    VECCAP = 1 << 20
    OUT, IN, POS = ("O", "$out"), ("O", "$in"), ("O", "$pos")

    def __init__(self, prog, opaque=None, hooks=None):
        super().__init__(prog, opaque, hooks)
        self.ids = {}
        self.pkey = self.iokey
        M = self.models
        S = "core::str::<impl str>::"
        ST = "std::string::String::"

        def reg(f, *names):
            for n in names:
                M[n] = f

        def sfn(f):
            """model over the elements of the receiver; forks over the alternatives of strings"""
            def g(it, st, fr, args, info):
                out = []
                for s, v in self.split(st, self.val(st, args[0])):
                    es = elems(v)
                    if es is None:
                        raise Undef("string operation %s on %s" % (info["name"].rsplit("::", 1)[1], show(v)[:120]))
                    r = f(s, fr, es, args, info)
                    out += r if isinstance(r, list) else [(s, r)]
                return out
            return g

        def mfn(f):
            """model mutating the string in place: f(state, elements, args) -> [(state, new elements, result)]"""
            def g(it, st, fr, args, info):
                loc, path = self.deref(st, args[0])
                out = []
                for s, v in self.split(st, self.read_path(st, loc, path)):
                    es = elems(v)
                    if es is None:
                        raise Undef("string operation %s on %s" % (info["name"].rsplit("::", 1)[1], show(v)[:120]))
                    for s2, ne, r in f(s, fr, es, args, info):
                        self.write(s2, fr, loc, path, txt(ne), info["span"], event=False)
                        out.append((s2, r))
                return out
            return g
        self.sfn, self.mfn = sfn, mfn
        reg(mfn(lambda s, fr, es, a, i: [(s, es + (self.val(s, a[1]),), UNIT)]), ST + "push")
        reg(mfn(lambda s, fr, es, a, i: [(s, es + elems(self.val(s, a[1])), UNIT)] if elems(self.val(s, a[1])) is not None else
                [(s2, es + elems(v), UNIT) for s2, v in self.split(s, self.val(s, a[1]))]), ST + "push_str", "<std::string::String as std::ops::AddAssign<&str>>::add_assign")
        reg(mfn(lambda s, fr, es, a, i: [(s, es[:-1], some(es[-1])) if es and es[-1].op not in PIECES else (s, es[:-1] + (mk("fraw", es[-1]),), some(mk("lastof", es[-1]))) if es else (s, es, NONE)]), ST + "pop")
        reg(mfn(lambda s, fr, es, a, i: [(s, (), UNIT)]), ST + "clear")
        reg(self.m_clonefrom, "<std::string::String as std::clone::Clone>::clone_from", "std::clone::Clone::clone_from")
        reg(mfn(lambda s, fr, es, a, i: [(s, es[:self.at(es, a[1])], UNIT)]), ST + "truncate")
        reg(mfn(lambda s, fr, es, a, i: [(s, es[:self.at(es, a[1])] + es[self.at(es, a[1]) + 1:], es[self.at(es, a[1])])]), ST + "remove")
        reg(mfn(lambda s, fr, es, a, i: [(s, es[:self.at(es, a[1])] + (self.val(s, a[2]),) + es[self.at(es, a[1]):], UNIT)]), ST + "insert")
        reg(lambda it, st, fr, a, i: [(st, UNIT)], ST + "reserve", "std::vec::Vec::<T, A>::reserve", ST + "shrink_to_fit")
        reg(sfn(lambda s, fr, es, a, i: self.slen(es)), S + "len", ST + "len")
        reg(sfn(lambda s, fr, es, a, i: kbool(not es)), S + "is_empty", ST + "is_empty")
        reg(sfn(lambda s, fr, es, a, i: mk("iter", mk("vec", es))), S + "chars")
        reg(sfn(lambda s, fr, es, a, i: mk("iter", mk("vec", to_bytes(es)))), S + "bytes")
        reg(sfn(lambda s, fr, es, a, i: mk("iter", mk("vec", tuple(mk("agg", "()", 0, (kint("usize", self.off(es, k)), e)) for k, e in enumerate(es))))), S + "char_indices")
        reg(sfn(lambda s, fr, es, a, i: mk("vec", to_bytes(es))), S + "as_bytes", ST + "as_bytes", ST + "into_bytes", "core::str::<impl str>::to_vec")
        reg(sfn(self.t_trim(True, True)), S + "trim")
        reg(sfn(self.t_trim(True, False)), S + "trim_start", S + "trim_left")
        reg(sfn(self.t_trim(False, True)), S + "trim_end", S + "trim_right")
        reg(sfn(self.t_end), S + "ends_with")
        reg(sfn(self.t_start), S + "starts_with")
        reg(sfn(self.t_strip(False)), S + "strip_prefix")
        reg(sfn(self.t_strip(True)), S + "strip_suffix")
        reg(sfn(self.t_find), S + "find")
        reg(sfn(self.t_contains), S + "contains")
        reg(sfn(self.t_tem), S + "trim_end_matches", S + "trim_right_matches")
        reg(sfn(self.t_slice), "core::str::traits::<impl std::ops::Index<I> for str>::index", "<std::string::String as std::ops::Index<I>>::index")
        reg(self.v_index, "<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "core::slice::index::<impl std::ops::Index<I> for [T]>::index", "core::array::<impl std::ops::Index<I> for [T; N]>::index")
        reg(self.v_chunks, "core::slice::<impl [T]>::chunks")
        reg(lambda it, st, fr, a, i: self.v_chunks(it, st, fr, a, i, True), "core::slice::<impl [T]>::chunks_exact")
        reg(sfn(self.t_parse), S + "parse")
        def kfn(f):
            """over constant strings only"""
            def g(s, fr, es, a, i):
                xs = [txt(es)] + [self.val(s, x) for x in a[1:]]
                if not all(x.op == "k" and x.a[0] in ("str", "char") for x in xs):
                    raise Undef("string operation %s on %s" % (i["name"].rsplit("::", 1)[1], show(txt(es))[:100]))
                return f(*[x.a[1] if x.a[0] == "str" else chr(cls(x)[0][0]) for x in xs])
            return sfn(g)
        for low in ("str::<impl str>::", "slice::<impl str>::", "alloc::str::<impl str>::"):
            for pre in ("core::", "std::", "alloc::", ""):
                reg(kfn(lambda x: kstr(x.lower())), pre + low + "to_lowercase", pre + low + "to_ascii_lowercase")
                reg(kfn(lambda x: kstr(x.upper())), pre + low + "to_uppercase", pre + low + "to_ascii_uppercase")
                reg(kfn(lambda x, y, z: kstr(x.replace(y, z))), pre + low + "replace")
                reg(kfn(lambda x, y: kbool(x.lower() == y.lower())), pre + low + "eq_ignore_ascii_case")
                reg(kfn(lambda x, y: kstr(strip_all(x, y))), pre + low + "trim_start_matches", pre + low + "trim_left_matches")
        reg(lambda it, st, fr, a, i: [(st, kint("usize", width(self.val(st, a[0]))))], "std::char::methods::<impl char>::len_utf8", "core::char::methods::<impl char>::len_utf8")
        reg(self.t_radix, *["core::num::<impl %s>::from_str_radix" % n for n in INTS])
        for pre in ("std", "core"):
            reg(self.t_fromu32, pre + "::char::from_u32", pre + "::char::methods::<impl char>::from_u32", pre + "::char::convert::from_u32")
            reg(self.t_ascii, pre + "::char::methods::<impl char>::is_ascii")
            reg(self.t_digit, pre + "::char::methods::<impl char>::to_digit")
            reg(self.t_control, pre + "::char::methods::<impl char>::is_control")
            reg(self.t_asciictl, pre + "::char::methods::<impl char>::is_ascii_control")
        reg(self.t_utf8, ST + "from_utf8", "std::str::from_utf8", "core::str::from_utf8", "core::str::converts::from_utf8")
        reg(self.t_lossy, ST + "from_utf8_lossy")
        reg(self.t_decode, "encoding_rs::Encoding::decode")
        reg(self.m_append, "std::vec::Vec::<T, A>::append")
        reg(lambda it, st, fr, a, i: [(st, self.val(st, a[0]))] if i["dty"][0] == "adt" and i["dty"][1].endswith("Cow") else models.MODELS["<T as std::convert::Into<U>>::into"](it, st, fr, a, i),
            "<T as std::convert::Into<U>>::into")
        # formatting
        self.prefix_models = [("core::fmt::rt::Argument::<'_>::new_", self.f_arg)] + list(self.prefix_models)
        reg(self.f_format, "std::fmt::format")
        reg(self.f_tostring, "<T as std::string::ToString>::to_string", "std::string::ToString::to_string")
        reg(self.f_wfmt, "std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Write::write_fmt")
        reg(self.f_wstr, "std::fmt::Formatter::<'a>::write_str", "std::fmt::Write::write_str", "<std::string::String as std::fmt::Write>::write_str",
            "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str")
        reg(self.f_wchar, "std::fmt::Write::write_char", "<std::string::String as std::fmt::Write>::write_char", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_char")
        # bytes
        reg(self.w_fmt, "std::io::Write::write_fmt")
        reg(self.w_all, "std::io::Write::write_all")
        reg(lambda it, st, fr, a, i: [(st, ok(UNIT))], "std::io::Write::flush")
        for n in SIZE:
            reg(self.w_num(n), "byteorder::WriteBytesExt::write_" + n)
            reg(self.r_num(n), "byteorder::ReadBytesExt::read_" + n)
            reg(lambda it, st, fr, a, i, n=n: self.b_read(n, self.order(i))(it, st, fr, a, i), "byteorder::ByteOrder::read_" + n)
            reg(lambda it, st, fr, a, i, n=n: self.b_write(n, self.order(i))(it, st, fr, a, i), "byteorder::ByteOrder::write_" + n)
            for e, o in (("LittleEndian", 1), ("BigEndian", -1)):
                reg(self.b_read(n, o), "<byteorder::%s as byteorder::ByteOrder>::read_%s" % (e, n))
                reg(self.b_write(n, o), "<byteorder::%s as byteorder::ByteOrder>::write_%s" % (e, n))
            for pre in ("core::num::<impl %s>::" % n, "core::%s::<impl %s>::" % (n, n), "std::%s::<impl %s>::" % (n, n), "std::num::<impl %s>::" % n):
                reg(self.b_from(n, 1), pre + "from_le_bytes")
                reg(self.b_from(n, -1), pre + "from_be_bytes")
                reg(self.b_to(n, 1), pre + "to_le_bytes")
                reg(self.b_to(n, -1), pre + "to_be_bytes")
        reg(self.r_read, "std::io::Read::read")
        reg(self.r_exact, "std::io::Read::read_exact")
        reg(self.r_end, "std::io::Read::read_to_end")
        reg(lambda it, st, fr, a, i: [(st, mk("i_in"))], "std::io::Read::bytes")

    # ---------------------------------------------------------------- helpers
    PER_RUN = 60
    strict = False

    def run(self, *a, **k):
        B.deadline = self.deadline = min(self.deadline or LIMIT_AT, time.time() + self.PER_RUN)
        try:
            return super().run(*a, **k)
        finally:
            B.deadline = None

    def part(self, *vs):
        if self.strict:
            for v in vs:
                while v.op == "cast":
                    v = v.a[0]
                if v.op in ("byte", "le"):
                    raise OutOfStep("a part of a number decides how the file is read")

    def m_clonefrom(self, it, st, fr, args, info):
        loc, path = self.deref(st, args[0])
        self.write(st, fr, loc, path, self.val(st, args[1]), info["span"], event=False)
        return [(st, UNIT)]

    def call_rec(self, st, fr, bb, rec, subst, args, atys, dty, span):
        """method of a trait object whose concrete value is known"""
        if rec.get("trait") and args and "dyn" in str([self.sub(a, subst) for a in rec["args"][:1]]):
            v = self.val(st, args[0])
            if v.op == "agg" and v.a[0] in self.p.adts:
                m = rec["key"].rsplit("::", 1)[-1]
                bs = [b for b in self.p.bodies.values() if b.method == m and b.trait and b.self_ty and b.self_ty[:2] == ("adt", v.a[0])]
                if len(bs) == 1:
                    a0 = args[0]
                    return self.inline(st, fr, bb, bs[0], [a0] + list(args[1:]), {}, span)
        return super().call_rec(st, fr, bb, rec, subst, args, atys, dty, span)

    def operand(self, st, fr, o):
        if o[0] == "c" and o[1][1]:
            loc, path, t = self.resolve_place(st, fr, o[1])
            if t[0] == "adt" and t[1] == "std::boxed::Box":
                v = self.read_path(st, loc, path)
                if v.op == "agg":
                    return mk("ref", loc, path)
        return super().operand(st, fr, o)

    def split(self, st, v):
        if v.op != "phi":
            return [(st, v)]
        out = []
        for g, x in v.a[0]:
            pc = B.AND(st.pc, g)
            if pc:
                s = st.copy()
                s.pc = pc
                out += self.split(s, x)
        return out

    def iokey(self, s):
        """states that have written or have yet to read different bytes are kept apart"""
        return tuple(self.ids.setdefault(s.store.get(l), len(self.ids)) for l in (self.POS, self.IN, self.OUT))

    def shape(self, v, d=0, lim=2):
        if v.op == "txt":
            return ("txt", len(v.a[0]))
        if v.op == "k" and v.a[0] == "str":
            return ("txt", v.a[1])
        return super().shape(v, d, lim)

    def join_val(self, parts):
        vs = [elems(v) for _, v in parts]
        if all(x is not None for x in vs) and len({len(x) for x in vs}) == 1 and any(v is not parts[0][1] for _, v in parts):
            es = [super(Codec, self).join_val([(g, x[i]) for (g, _), x in zip(parts, vs)]) for i in range(len(vs[0]))]
            if not any(e.op == "phi" for e in es):
                return txt(es)
        return super().join_val(parts)

    def off(self, es, k):
        n = 0
        for e in es[:k]:
            w = width(e)
            if w is None:
                raise Undef("offset behind a run of unknown length")
            n += w
        return n

    def at(self, es, ix):
        """element index of a byte offset"""
        if not is_k(ix):
            raise Undef("unknown offset into a string")
        for k in range(len(es) + 1):
            if self.off(es, k) == ix.a[1]:
                return k
        raise Undef("offset %s inside a character" % ix.a[1])

    def slen(self, es):
        n, sym = 0, None
        for e in es:
            w = width(e)
            if w is None:
                return mk("len", txt(es))
            n += w
        return kint("usize", n)

    def length(self, st, v):
        x = self.val(st, v) if st is not None else v
        if x.op == "txt":
            return self.slen(x.a[0])
        return super().length(st, v)

    def _cmp(self, op, a, b, isint, st):
        self.part(a, b)
        if isint and is_k(a) != is_k(b):
            x, k, o = (a, b, op) if is_k(b) else (b, a, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq"}[op])
            if x.op == "phi":
                return super()._cmp(op, a, b, isint, st)
            r = cls(x) if st is None or x not in st.known else None
            if r is not None and k.a[0] != "str":
                c = cls(k)[0][0] if k.a[0] in ("char", "u8") else k.a[1]
                lo, hi = min(l for l, _ in r), max(h for _, h in r)
                if o == "Eq":
                    if not any(l <= c <= h for l, h in r):
                        return FALSE
                    if lo == hi == c:
                        return TRUE
                else:
                    t = {"Lt": (hi < c, lo >= c), "Le": (hi <= c, lo > c), "Gt": (lo > c, hi <= c), "Ge": (lo >= c, hi < c)}[o]
                    if t[0]:
                        return TRUE
                    if t[1]:
                        return FALSE
        if op == "Eq" and a.op == b.op == "sym" and a is not b and str(a.a[0]).startswith("static:") and str(b.a[0]).startswith("static:"):
            return FALSE
        if op == "Eq" and not (is_k(a) and is_k(b)):
            x, y = elems(a), elems(b)
            if x is not None and y is not None:
                if not any(e.op in PIECES for e in x + y):
                    if len(x) != len(y):
                        return FALSE
                    r = TRUE
                    for e, f in zip(x, y):
                        if is_k(e) and not is_k(f):
                            e, f = f, e
                        r = self.bool2("band", r, self._cmp("Eq", e, f, True, st))
                    return r
        return super()._cmp(op, a, b, isint, st)

    def switch_val(self, st, v, cases, other, d):
        self.part(v)
        if not is_k(v) and v.op != "phi" and v not in st.known:
            r = cls(v)
            if r is not None:
                cases = [c for c in cases if any(l <= c[0] <= h for l, h in r)]
                if v.op == "cast":
                    return self.switch_val(st, v.a[0], cases, other, d)
        return super().switch_val(st, v, cases, other, d)

    def cast(self, v, kind, ts, td):
        tn = td[1] if td[0] in ("int", "float") else td[0]
        if tn == "char" and v.op == "cb":
            return v.a[0]
        if tn == "u8" and (ts[0] == "char" or v in CRANGE) and not is_k(v):
            r = cls(v)
            if r and max(h for _, h in r) < 0x80:
                return mk("cb", v)
        if v.op == "cb" and tn in INTS and tn != "u8":
            return super().cast(v.a[0], kind, ("char",), td)
        if v.op == "cast" and v.a[1] == "char" and tn == "char":
            return v.a[0]
        if v.op == "cast" and v.a[2] == "f64" and v.a[1] in INTS and tn in INTS and INTS[v.a[1]][0] <= 32 and self.widens(v.a[1], tn):
            return super().cast(v.a[0], "IntToInt", ("int", v.a[1]), td)
        return super().cast(v, kind, ts, td)

    # ---------------------------------------------------------------- strings
    def pred(self, s, fr, info, pat, e):
        """[(state, bool term)]: element e matches the pattern"""
        p = self.val(s, pat)
        if p.op == "k" and p.a[0] == "char":
            return [(s, self.cmp("Eq", e, p, True, s))]
        if p.op in ("vec",):
            r = FALSE
            for x in p.a[0]:
                r = self.bool2("bor", r, self.cmp("Eq", e, self.val(s, x), True, s))
            return [(s, r)]
        if p.op in ("closure", "fnv", "fn") or (p.op == "k" and p.a[0] == "fn") or p.op not in ("k", "txt"):
            return self.call_value(s, fr, ("pat", info["bb"], self.iters), pat, [e], info["span"])
        raise Undef("pattern %s" % show(p))

    def fork(self, s, c):
        """[(state, bool)]"""
        out = []
        g = self.bdd(s, c)
        for gg, b in ((g, True), (B.NOT(g), False)):
            pc = B.AND(s.pc, gg)
            if pc:
                s2 = s.copy()
                s2.pc = pc
                self.learn(s2, c, b)
                out.append((s2, b))
        return out

    def is_str_pat(self, s, pat):
        p = self.val(s, pat)
        return elems(p) if p.op == "txt" or p.op == "k" and p.a[0] == "str" else None

    def t_trim(self, left, right):
        sp = {9, 10, 11, 12, 13, 32, 0x85, 0xA0}

        def f(s, fr, es, a, i):
            es = list(es)

            def white(e):
                if e.op in PIECES:
                    return False
                r = cls(e)
                if len(r) == 1 and r[0][0] == r[0][1]:
                    return chr(r[0][0]).isspace()
                if any(l <= c <= h for l, h in r for c in sp):
                    raise Undef("trim of a character that may be a blank")
                return False
            if left:
                while es and white(es[0]):
                    es.pop(0)
                if es and es[0].op == "num":
                    es[0] = mk("num", es[0].a[0], es[0].a[1], es[0].a[2].replace("l", ""))
            if right:
                while es and white(es[-1]):
                    es.pop()
                if es and es[-1].op == "num":
                    es[-1] = mk("num", es[-1].a[0], es[-1].a[1], es[-1].a[2].replace("r", ""))
            return txt(es)
        return f

    def last_is(self, s, fr, info, es, pat, first=False):
        """[(state, bool)] the last (first) character matches"""
        if not es:
            return [(s, False)]
        e = es[0 if first else -1]
        if e.op in PIECES:
            e = mk("firstof" if first else "lastof", e)
            CRANGE.setdefault(e, cls(e.a[0]) or DEC)
        out = []
        for s2, c in self.pred(s, fr, info, pat, e):
            out += self.fork(s2, c)
        return out

    def t_end(self, s, fr, es, a, i, first=False):
        p = self.is_str_pat(s, a[1])
        if p is not None:
            x = es[:len(p)] if first else es[len(es) - len(p):] if len(p) <= len(es) else ()
            if len(x) != len(p):
                return FALSE
            return self.cmp("Eq", txt(x), txt(p), True, s)
        return [(s2, kbool(b)) for s2, b in self.last_is(s, fr, i, es, a[1], first)]

    def t_start(self, s, fr, es, a, i):
        return self.t_end(s, fr, es, a, i, True)

    def t_strip(self, end):
        def f(s, fr, es, a, i):
            out = []
            p = self.is_str_pat(s, a[1])
            n = 1 if p is None else len(p)
            r = self.t_end(s, fr, es, a, i, not end)
            for s1, c in (r if isinstance(r, list) else [(s, r)]):
                for s2, b in self.fork(s1, c):
                    out.append((s2, some(txt(es[:len(es) - n] if end else es[n:])) if b else NONE))
            return out
        return f

    def t_find(self, s, fr, es, a, i):
        p = self.is_str_pat(s, a[1])
        out, work = [], [s]
        for k in range(len(es)):
            nw = []
            for s1 in work:
                if p is not None:
                    x = es[k:k + len(p)]
                    rs = [(s1, self.cmp("Eq", txt(x), txt(p), True, s1) if len(x) == len(p) else FALSE)]
                else:
                    rs = self.pred(s1, fr, i, a[1], es[k])
                for s2, c in rs:
                    for s3, b in self.fork(s2, c):
                        (out.append((s3, some(kint("usize", self.off(es, k))))) if b else nw.append(s3))
            work = nw
        return out + [(s1, NONE) for s1 in work]

    def t_contains(self, s, fr, es, a, i):
        return [(s1, TRUE if r is not NONE else FALSE) for s1, r in self.t_find(s, fr, es, a, i)]

    def t_tem(self, s, fr, es, a, i):
        out, work = [], [(s, es)]
        while work:
            s1, x = work.pop()
            if not x:
                out.append((s1, txt(x)))
                continue
            for s2, b in self.last_is(s1, fr, i, x, a[1]):
                if b and x[-1].op in PIECES:
                    x2 = x[:-1] + (mk("fraw", x[-1]),)
                    out.append((s2, txt(x2)))
                elif b:
                    work.append((s2, x[:-1]))
                else:
                    out.append((s2, txt(x)))
        return out

    def v_index(self, it, st, fr, args, info):
        """a known part of a list of known length"""
        r = self.val(st, args[1])
        v = self.val(st, args[0])
        if r.op == "agg" and "ops::Range" in r.a[0] and v.op == "vec":
            fs = [self.val(st, x) for x in r.a[2]]
            if all(is_k(x) for x in fs):
                n, ks = r.a[0], [x.a[1] for x in fs]
                lo = ks[0] if n.endswith(("RangeFrom", "ops::Range", "RangeInclusive")) else 0
                hi = ks[-1] if n.endswith(("RangeTo", "ops::Range")) else ks[1] + 1 if n.endswith("RangeInclusive") else ks[0] + 1 if n.endswith("RangeToInclusive") else len(v.a[0])
                if 0 <= lo <= hi <= len(v.a[0]):
                    return [(st, mk("vec", v.a[0][lo:hi]))]
        return models.vindex(it, st, fr, args, info)

    def v_chunks(self, it, st, fr, args, info, exact=False):
        v, n = self.val(st, args[0]), self.val(st, args[1])
        if v.op == "vec" and is_k(n) and n.a[1] > 0:
            k, es = n.a[1], v.a[0]
            return [(st, mk("iter", mk("vec", tuple(mk("vec", es[j:j + k]) for j in range(0, len(es) - len(es) % k if exact else len(es), k)))))]
        return models.MODELS["core::slice::<impl [T]>::chunks"](it, st, fr, args, info)

    def t_slice(self, s, fr, es, a, i):
        r = self.val(s, a[1])
        if r.op != "agg":
            raise Undef("slice of a string by %s" % show(r))
        n, fs = r.a[0], [self.val(s, x) for x in r.a[2]]
        lo, hi = 0, len(es)
        if n.endswith("RangeFull"):
            pass
        elif n.endswith("RangeFrom"):
            lo = self.at(es, fs[0])
        elif n.endswith("RangeTo"):
            hi = self.at(es, fs[0])
        elif n.endswith("ops::Range"):
            lo, hi = self.at(es, fs[0]), self.at(es, fs[1])
        else:
            raise Undef("slice by " + n)
        return txt(es[lo:hi])

    def t_parse(self, s, fr, es, a, i):
        t = i["dty"]
        n = t[2] if t[0] == "adt" else None
        n = n[1] if n and n[0] in ("int", "float") else None
        return self.parsed(s, es, n)

    def parsed(self, s, es, n):
        bad = err(mk("parseerr", txt(es)))
        if all(is_k(e) for e in es):
            x = txt(es).a[1]
            try:
                if n in INTS:
                    v = int(x)
                    lo, hi = irange(n)
                    return ok(kint(n, v)) if lo <= v <= hi and x == x.strip() and "_" not in x else bad
                if n == "f64":
                    return ok(kf64(float(x))) if x == x.strip() and "_" not in x else bad
                if n == "f32":
                    return ok(kf32(float(x))) if x == x.strip() and "_" not in x else bad
            except ValueError:
                return bad
            raise Undef("parse of a constant as %s" % n)
        if len(es) == 1 and es[0].op == "num":
            v, m, pad = es[0].a
            if pad:
                return bad
            if n == m:
                return ok(v)
            if n in INTS and m in INTS and self.widens(m, n):
                return ok(self.cast(v, "IntToInt", ("int", m), ("int", n)))
            if n == "f64" and m in INTS:
                return ok(self.cast(v, "IntToFloat", ("int", m), ("float", "f64")))
            return ok(mk("parsed", n, txt(es)))
        if n == "f64" and es[0].op == "fint":
            v, prec = es[0].a
            ds = es[1:]
            if ds:
                if not (is_k(ds[0]) and cls(ds[0])[0][0] == 46):
                    return ok(mk("parsed", n, txt(es)))
                ds = ds[1:]
            k = 0
            while k < len(ds) and ds[k] is mk("fdig", v, k):
                k += 1
            if any(not (is_k(d) and cls(d)[0][0] == 48) for d in ds[k:]):
                return ok(mk("parsed", n, txt(es)))
            # the decimals left out have to be zero on this path
            for j in range(k, prec):
                g = self.bdd(s, self.cmp("Eq", mk("fdig", v, j), kchar(48), True, s))
                if B.AND(s.pc, B.NOT(g)):
                    return ok(mk("parsed", n, txt(es)))
            return ok(mk("rounded", v, prec))
        return ok(mk("parsed", n, txt(es)))

    def t_radix(self, it, st, fr, args, info):
        n = info["dty"][2][1]
        out = []
        for s, v in self.split(st, self.val(st, args[0])):
            es, r = elems(v), self.val(s, args[1])
            if es is None or not is_k(r):
                raise Undef("from_str_radix")
            if all(is_k(e) for e in es):
                try:
                    x = int(txt(es).a[1], r.a[1])
                    lo, hi = irange(n)
                    out.append((s, ok(kint(n, x)) if lo <= x <= hi and txt(es).a[1].strip("+-").isalnum() else err(mk("parseerr", v))))
                except ValueError:
                    out.append((s, err(mk("parseerr", v))))
            elif es and es[0].op == "hexd" and r.a[1] == 16 and es[0].a[1] == len(es) - 1 and all(
                    e.op == "hexd" and e.a[0] is es[0].a[0] and e.a[1] == len(es) - 1 - k for k, e in enumerate(es)):
                src, ns = es[0].a[0], es[0].a[3]
                full = es[0].a[4] == len(es)
                out.append((s, ok(self.cast(src, "IntToInt", ("int", ns), ("int", n)) if full else mk("hexpart", src, len(es)))))
            elif len(es) == 1 and es[0].op == "hexs" and r.a[1] == 16:
                out.append((s, ok(self.cast(es[0].a[0], "IntToInt", ("int", es[0].a[1]), ("int", n)))))
            elif any(e.op not in PIECES and cls(e) is not None and not any(l <= c <= h for l, h in cls(e) for c in list(range(48, 58)) + list(range(65, 71)) + list(range(97, 103)) + [43]) for e in es):
                out.append((s, err(mk("parseerr", v))))
            else:
                out.append((s, ok(mk("radix", v, r))))
        return out

    def t_fromu32(self, it, st, fr, args, info):
        v = self.val(st, args[0])
        if is_k(v):
            c = v.a[1]
            return [(st, some(kchar(c)) if c <= 0x10FFFF and not 0xD800 <= c <= 0xDFFF else NONE)]
        if v.op == "cast" and v.a[1] == "char":
            return [(st, some(v.a[0]))]
        c = mk("tochar", v)
        CRANGE.setdefault(c, ((0, 0x10FFFF),))
        return [(st, models.optional(self, st, c, mk("validchar", v)))]

    def t_ascii(self, it, st, fr, args, info):
        return [(st, self.cmp("Lt", self.val(st, args[0]), kchar(0x80), True, st))]

    def t_asciictl(self, it, st, fr, args, info):
        v = self.val(st, args[0])
        return [(st, self.bool2("bor", self.cmp("Lt", v, kchar(0x20), True, st), self.cmp("Eq", v, kchar(0x7F), True, st)))]

    def t_control(self, it, st, fr, args, info):
        v = self.val(st, args[0])
        r = cls(v)
        if len(r) == 1 and r[0][0] == r[0][1]:
            c = r[0][0]
            return [(st, kbool(c < 0x20 or 0x7F <= c < 0xA0))]
        return [(st, mk("is_control", v))]

    def t_digit(self, it, st, fr, args, info):
        v, r = self.val(st, args[0]), self.val(st, args[1])
        if is_k(v) and is_k(r):
            try:
                return [(st, some(kint("u32", int(chr(v.a[1]), r.a[1]))))]
            except ValueError:
                return [(st, NONE)]
        raise Undef("to_digit")

    def bvec(self, st, v):
        v = self.val(st, v)
        if v.op == "vec":
            return tuple(self.val(st, x) for x in v.a[0])
        if v.op == "k" and v.a[0] == "bytes":
            return tuple(kint("u8", b) for b in v.a[1])
        if v.op == "repeat" and is_k(v.a[1]):
            return (v.a[0],) * v.a[1].a[1]
        raise Undef("bytes %s" % show(v)[:100])

    def t_utf8(self, it, st, fr, args, info):
        out = []
        for s, v in self.split(st, self.val(st, args[0])):
            es = from_bytes(self.bvec(s, v))
            out.append((s, ok(txt(es)) if es is not None else err(mk("agg", "std::string::FromUtf8Error", 0, (v,)))))
        return out

    def t_lossy(self, it, st, fr, args, info):
        out = []
        for s, v in self.split(st, self.val(st, args[0])):
            es = from_bytes(self.bvec(s, v))
            if es is None:
                raise Undef("lossy decoding")
            out.append((s, txt(es)))
        return out

    def t_decode(self, it, st, fr, args, info):
        enc = self.val(st, args[0])
        out = []
        for s, v in self.split(st, self.val(st, args[1])):
            bs = self.bvec(s, v)
            es, bad = from_bytes(bs), FALSE
            if self.is_utf8(s, enc):
                if es is None:
                    es, bad = [mk("mojibake", b) if not is_k(b) or b.a[1] > 0x7F else chrk(b.a[1]) for b in bs], TRUE
            elif enc is W1252 and all(is_k(b) for b in bs):
                es = [chrk(ord(bytes([b.a[1]]).decode("cp1252", "replace"))) if b.a[1] not in (0x81, 0x8D, 0x8F, 0x90, 0x9D) else chrk(b.a[1]) for b in bs]
            elif es is not None:
                es = [e if e.op in PIECES or max(h for _, h in cls(e)) < 0x80 else mk("mojibake", e) for e in es]
            else:
                es = [mk("mojibake", b) if not is_k(b) or b.a[1] > 0x7F else chrk(b.a[1]) for b in bs]
            for e in es:
                if e.op == "mojibake":
                    CRANGE.setdefault(e, ((0x80, 0xFFFF),))
            out.append((s, mk("agg", "()", 0, (txt(es), enc, bad))))
        return out

    def is_utf8(self, s, enc):
        return enc is UTF8

    def m_append(self, it, st, fr, args, info):
        loc, path = self.deref(st, args[0])
        l2, p2 = self.deref(st, args[1])
        a, b = self.bvec(st, args[0]), self.bvec(st, args[1])
        self.write(st, fr, loc, path, mk("vec", a + b), info["span"], event=False)
        self.write(st, fr, l2, p2, mk("vec", ()), info["span"], event=False)
        return [(st, UNIT)]

    # ---------------------------------------------------------------- formatting
    def f_arg(self, it, st, fr, args, info):
        kind = info["name"].rsplit("new_", 1)[1]
        t = info["gargs"][-1] if info["gargs"] else info["atys"][0]
        while t[0] == "ref":
            t = t[1]
        a = args[0]
        while a.op == "ref":
            v = self.read_path(st, a.a[0], a.a[1])
            if v.op != "ref":
                break
            a = v
        return [(st, mk("fmtarg", kind, a, t))]

    def render(self, st, fr, fa, info):
        """[(state, elements)] of a fmt::Arguments value"""
        fa = self.val(st, fa)
        if fa.op != "fmtargs":
            raise Undef("format %s" % show(fa)[:80])
        if len(fa.a) == 1:
            es = elems(fa.a[0])
            if es is None:
                raise Undef("format")
            return [(st, es)]
        if fa.a[0].op != "k" or not isinstance(fa.a[0].a[1], (bytes, tuple)):
            raise Undef("format template %s" % show(fa.a[0])[:60])
        b, xs = bytes(fa.a[0].a[1]), self.bvec(st, fa.a[1])
        i, nxt, outs = 0, 0, [(st, ())]
        while i < len(b) and b[i] != 0:
            n = b[i]
            i += 1
            if n < 0x80 or n == 0x80:
                ln = n
                if n == 0x80:
                    ln = int.from_bytes(b[i:i + 2], "little")
                    i += 2
                lit = tuple(chrk(c) for c in b[i:i + ln].decode())
                i += ln
                outs = [(s, es + lit) for s, es in outs]
                continue
            flags, wd, pr = 0xE0000020, 0, 0
            if n & 1:
                flags = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if n & 2:
                wd = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if n & 4:
                pr = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if n & 8:
                nxt = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if n & 48:
                w2 = xs[wd] if n & 16 else None
                p2 = xs[pr] if n & 32 else None
                for y in (w2, p2):
                    if y is not None and not is_k(self.val(st, y.a[1])):
                        raise Undef("format width from a variable")
                wd = self.val(st, w2.a[1]).a[1] if w2 is not None else wd
                pr = self.val(st, p2.a[1]).a[1] if p2 is not None else pr
            x = xs[nxt]
            nxt += 1
            no = []
            for s, es in outs:
                for s2, e2 in self.placeholder(s, fr, x, flags, wd if n & 18 else None, pr if n & 36 else None, info):
                    no.append((s2, es + e2))
            outs = no
        return outs

    def placeholder(self, st, fr, x, flags, wd, pr, info):
        kind, a, t = x.a
        fill, align, zero, plus, alt = flags & 0x1FFFFF, (flags >> 29) & 3, bool(flags & 1 << 24), bool(flags & 1 << 21), bool(flags & 1 << 23)
        out = []
        for s, v in self.split(st, self.val(st, a)):
            tn = t[1] if t[0] in ("int", "float") else t[0]
            if kind in ("display", "debug") and tn in INTS:
                if is_k(v):
                    r = str(v.a[1])
                    out.append((s, self.pad(tuple(chrk(c) for c in r), wd, fill, align, zero, True)))
                else:
                    pad = ""
                    if wd:
                        if zero:
                            pad = ""
                        elif fill != 32:
                            raise Undef("padding with other than blanks")
                        else:
                            pad = {0: "r", 1: "l", 2: "lr", 3: "l"}[align]
                    if plus:
                        raise Undef("sign")
                    out.append((s, (mk("num", v, tn, pad),)))
            elif kind in ("display", "debug") and tn == "f64":
                if plus or wd:
                    raise Undef("padded real")
                if is_k(v):
                    f = fval(v)
                    if f != f:
                        r = "NaN"
                    elif f in (float("inf"), float("-inf")):
                        r = "inf" if f > 0 else "-inf"
                    elif pr is not None:
                        r = "%.*f" % (pr, f)
                    else:
                        raise Undef("shortest representation of a real")
                    out.append((s, tuple(chrk(c) for c in r)))
                elif pr is None:
                    out.append((s, (mk("fexact", v),)))
                else:
                    out.append((s, (mk("fint", v, pr),) + ((chrk("."),) + tuple(mk("fdig", v, k) for k in range(pr)) if pr else ())))
            elif kind in ("upper_hex", "lower_hex") and tn in INTS:
                if alt:
                    raise Undef("alternate hex")
                up = "X" if kind == "upper_hex" else "x"
                if is_k(v):
                    r = ("%X" if up == "X" else "%x") % (v.a[1] & ((1 << INTS[tn][0]) - 1))
                    out.append((s, self.pad(tuple(chrk(c) for c in r), wd, fill, align, zero, True)))
                else:
                    c = cls(v)
                    if c is None:
                        if wd:
                            raise Undef("hex of an unknown number with a width")
                        out.append((s, (mk("hexs", v, tn),)))
                    else:
                        lo, hi = len("%X" % c[0][0]), len("%X" % c[-1][1])
                        n = wd if wd and zero and wd >= hi else (hi if lo == hi else None)
                        if n is None:
                            if hi > (wd or 0) >= lo or lo != hi:
                                raise Undef("hex digits of a range")
                        out.append((s, tuple(mk("hexd", v, n - 1 - k, up, tn, n) for k in range(n))))
            elif kind in ("display",) and (t[0] == "str" or t == ("adt", "std::string::String")):
                es = elems(v)
                if es is None:
                    raise Undef("format of string %s" % show(v)[:80])
                out.append((s, es if not wd else self.pad(es, wd, fill, align, False, False)))
            elif kind == "display" and t[0] == "char":
                out.append((s, (v,)))
            elif kind in ("display", "debug") and t[0] == "adt":
                tr = "std::fmt::Display" if kind == "display" else "std::fmt::Debug"
                b = next((self.p.bodies[ms["fmt"]] for sty, ms in self.p.impls.get(tr, []) if sty[:2] == t[:2] and ms.get("fmt") in self.p.bodies), None)
                if b is None:
                    if t[1].startswith(("uuid", "chrono")):
                        out.append((s, (mk("opaque", v),)))
                        continue
                    raise Undef("format of %s" % (t,))
                loc = ("H", "fmt", len(self.ctxs), info["bb"], self.iters)
                s.store[loc] = kstr("")
                n0 = loc
                for s2, r in self.inline(s, fr, ("fmt", info["bb"]), b, [a, mk("ref", n0, ())], {}, info["span"]):
                    for s3, v3 in self.split(s2, s2.store[n0]):
                        es = elems(v3)
                        if es is None:
                            raise Undef("format of %s" % t[1])
                        out.append((s3, es))
            else:
                raise Undef("format of %s as %s" % (t, kind))
        return out

    def pad(self, es, wd, fill, align, zero, num):
        if not wd or len(es) >= wd:
            return es
        n = wd - len(es)
        if zero:
            k = 1 if cls(es[0])[0][0] in (43, 45) else 0
            return es[:k] + (chrk("0"),) * n + es[k:]
        f = (kchar(fill),)
        if align == 3:
            align = 1 if num else 0
        l = {0: 0, 1: n, 2: n // 2}[align]
        return f * l + es + f * (n - l)

    def f_format(self, it, st, fr, args, info):
        return [(s, txt(es)) for s, es in self.render(st, fr, args[0], info)]

    def f_tostring(self, it, st, fr, args, info):
        t = info["atys"][0]
        while t[0] == "ref":
            t = t[1]
        v = self.val(st, args[0])
        if t[0] == "str" or t == ("adt", "std::string::String"):
            return [(st, v)]
        if t[0] == "char":
            return [(st, txt((v,)))]
        return [(s, txt(es)) for s, es in self.placeholder(st, fr, mk("fmtarg", "display", args[0], t), 0xE0000020, None, None, info)]

    def emit(self, s, fr, dst, es, info):
        loc, path = self.deref(s, dst)
        old = elems(self.read_path(s, loc, path))
        if old is None:
            raise Undef("write! into %s" % show(self.read_path(s, loc, path))[:80])
        self.write(s, fr, loc, path, txt(old + tuple(es)), info["span"], event=False)
        return (s, ok(UNIT))

    def f_wfmt(self, it, st, fr, args, info):
        return [self.emit(s, fr, args[0], es, info) for s, es in self.render(st, fr, args[1], info)]

    def f_wstr(self, it, st, fr, args, info):
        return [self.emit(s, fr, args[0], elems(v), info) for s, v in self.split(st, self.val(st, args[1]))]

    def f_wchar(self, it, st, fr, args, info):
        return [self.emit(st, fr, args[0], (self.val(st, args[1]),), info)]

    # ---------------------------------------------------------------- bytes out
    def put(self, st, bs):
        out = []
        for s, v in self.split(st, st.store[self.OUT]):
            s.store[self.OUT] = mk("vec", v.a[0] + tuple(bs))
            out.append((s, ok(UNIT)))
        return out

    def w_fmt(self, it, st, fr, args, info):
        return [x for s, es in self.render(st, fr, args[1], info) for x in self.put(s, to_bytes(es))]

    def w_all(self, it, st, fr, args, info):
        out = []
        for s, v in self.split(st, self.val(st, args[1])):
            es = elems(v)
            out += self.put(s, to_bytes(es) if es is not None else self.bvec(s, v))
        return out

    def order(self, info):
        g = [x for x in info["gargs"] if x[0] == "adt" and x[1].endswith("Endian")]
        return -1 if g and g[-1][1].endswith("BigEndian") else 1

    def w_num(self, n):
        def f(it, st, fr, args, info):
            v = self.val(st, args[1])
            return [y for s, x in self.split(st, v) for y in self.put(s, [byte_of(x, n, i) for i in range(SIZE[n])][::self.order(info)])]
        return f

    def b_to(self, n, o):
        return lambda it, st, fr, args, info: [(st, mk("vec", tuple([byte_of(self.val(st, args[0]), n, i) for i in range(SIZE[n])][::o])))]

    def b_from(self, n, o):
        return lambda it, st, fr, args, info: [(st, from_le(n, list(self.bvec(st, args[0]))[::o]))]

    def b_read(self, n, o):
        return lambda it, st, fr, args, info: [(st, from_le(n, list(self.bvec(st, args[0]))[:SIZE[n]][::o]))]

    def b_write(self, n, o):
        def f(it, st, fr, args, info):
            loc, path = self.deref(st, args[0])
            old = self.bvec(st, args[0])
            new = [byte_of(self.val(st, args[1]), n, i) for i in range(SIZE[n])][::o]
            self.write(st, fr, loc, path, mk("vec", tuple(new) + old[SIZE[n]:]), info["span"], event=False)
            return [(st, UNIT)]
        return f

    # ---------------------------------------------------------------- bytes in
    def take(self, s, n):
        """up to n bytes"""
        p, bs = s.store[self.POS].a[1], s.store[self.IN].a[0]
        r = bs[p:p + n]
        s.store[self.POS] = kint("usize", p + len(r))
        return r

    EOF = err(mk("sym", "io::Error"))

    def r_num(self, n):
        def f(it, st, fr, args, info):
            bs = self.take(st, SIZE[n])
            return [(st, ok(from_le(n, list(bs)[::self.order(info)])) if len(bs) == SIZE[n] else self.EOF)]
        return f

    def cursor(self, it, st, fr, args, info):
        st.store[self.IN] = mk("vec", self.bvec(st, args[0]))
        st.store[self.POS] = kint("usize", 0)
        return [(st, mk("sym", "$cursor"))]

    def fill(self, st, fr, args, info):
        loc, path = self.deref(st, args[1])
        old = self.bvec(st, args[1])
        bs = self.take(st, len(old))
        self.write(st, fr, loc, path, mk("vec", tuple(bs) + old[len(bs):]), info["span"], event=False)
        return len(bs), len(old)

    def r_read(self, it, st, fr, args, info):
        n, _ = self.fill(st, fr, args, info)
        return [(st, ok(kint("usize", n)))]

    def r_exact(self, it, st, fr, args, info):
        n, m = self.fill(st, fr, args, info)
        return [(st, ok(UNIT) if n == m else self.EOF)]

    def r_end(self, it, st, fr, args, info):
        loc, path = self.deref(st, args[1])
        old = self.bvec(st, args[1])
        bs = self.take(st, 1 << 30)
        self.write(st, fr, loc, path, mk("vec", old + tuple(bs)), info["span"], event=False)
        return [(st, ok(kint("usize", len(bs))))]

    def unext(self, st, fr, info, v):
        if v.op == "i_in":
            bs = self.take(st, 1)
            return [(st, ok(bs[0]) if bs else None, v)]
        return super().unext(st, fr, info, v)

    def seq_at(self, st, src, sv, k):
        if sv.op == "k" and sv.a[0] == "bytes":
            return (kint("u8", sv.a[1][k]) if k < len(sv.a[1]) else None,)
        return super().seq_at(st, src, sv, k)


def opens(into, fns=("std::fs::File::create", "std::fs::File::create_new")):
    """hooks for the ways to open a file: the paths go to the list"""
    def first(it, st, fr, a, i):
        into.append(given_path(it.val(st, a[0])))
        return [(st, ok(mk("sym", "$file")))]

    def second(it, st, fr, a, i):
        into.append(given_path(it.val(st, a[1])))
        return [(st, ok(mk("sym", "$file")))]

    def same(it, st, fr, a, i):
        return [(st, a[0])]
    h = {n: first for n in fns}
    h["std::fs::OpenOptions::open"] = second
    for n in ("write", "create", "truncate", "read", "create_new"):
        h["std::fs::OpenOptions::" + n] = same
    for n in ("std::fs::OpenOptions::new", "std::fs::File::options"):
        h[n] = lambda it, st, fr, a, i: [(st, mk("sym", "$options"))]
    return h


def given_path(v):
    """the path under its conversions"""
    while v.op == "call" and len(v.a) > 2 and str(v.a[0]).rsplit("::", 1)[-1] in ("as_ref", "deref", "borrow", "to_path_buf", "to_owned", "clone", "into", "as_path", "new", "from") and len(v.a[2]) == 1:
        v = v.a[2][0]
    if v.op == "call":
        raise Undef("a path made by %s" % v.a[0])
    return v
