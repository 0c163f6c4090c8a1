"""Gated value-flow analysis over MIR: a forward abstract interpretation with joins at
merge points, fixpoints at loops, context-sensitive expansion of crate-local callees and
term-valued facts.  Nothing is executed: all values are provenance terms over the
function's inputs and the compiler's constants."""
import sys
import threading
import time
from terms import *
from mir import cfg

sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)

INTS = {"i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "i128": (128, 1), "isize": (64, 1),
        "u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0), "u128": (128, 0), "usize": (64, 0)}


def irange(ty):
    w, s = INTS[ty]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def wrap(ty, v):
    w, s = INTS[ty]
    v &= (1 << w) - 1
    if s and v >> (w - 1):
        v -= 1 << w
    return v


class State:
    __slots__ = ("store", "pc", "known", "ghost")

    def __init__(self):
        self.store = {}
        self.pc = 1
        self.known = {}
        self.ghost = {}     # rule-specific facts: frozenset (joined by union) or int (joined by min)

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.pc = self.pc
        s.known = dict(self.known)
        s.ghost = self.ghost
        return s

    def gset(self, k, v):
        g = dict(self.ghost)
        g[k] = v
        self.ghost = g


class Frame:
    __slots__ = ("ctx", "body", "subst", "depth", "parent", "key", "callspan")


class Event:
    __slots__ = ("kind", "guard", "ctx", "span", "d", "loops", "known", "fn")

    def __repr__(self):
        return "<%s %s @%s if %s>" % (self.kind, {k: v for k, v in self.d.items()}, self.span, B.show(self.guard, 3))


def positive(t):
    """a length plus at least one"""
    return t.op == "Add" and t.a[0].op == "len" and is_k(t.a[1]) and t.a[1].a[0] == "usize" and t.a[1].a[1] > 0


TWO = set()     # discriminant terms of two-variant enums: "is 1" is written "not 0"
OPTION = "std::option::Option"
RESULT = "std::result::Result"
CF = "std::ops::ControlFlow"


def some(x):
    return mk("agg", OPTION, 1, (x,))


NONE = mk("agg", OPTION, 0, ())


def ok(x):
    return mk("agg", RESULT, 0, (x,))


def err(x):
    return mk("agg", RESULT, 1, (x,))


class Interp:
    MAXSTATES = 10
    MAXPHI = 24
    PUSHCAP = 24
    VECCAP = 64
    MAXDEPTH = 60

    def __init__(self, prog, opaque=None, hooks=None):
        self.p = prog
        self.events = []
        self.ctxs = {}
        self.ctxinfo = {}
        self.opaque = opaque or (lambda b: False)
        self.hooks = hooks or {}
        self.loopstack = []
        self.loopinfo = {}
        self.stack = []
        self.sitemap = {}
        self.unknown = {}
        self.steps = 0
        self.maxsteps = 6_000_000
        self.deadline = None
        self.on_result = None
        self.pkey = None        # states with different keys are never merged
        self.on_call = None
        self.analysed = set()
        from models import MODELS, PREFIX
        self.models = MODELS
        self.prefix_models = PREFIX

    # ------------------------------------------------------------ contexts
    def ctx(self, parent, key, bb):
        k = (parent, key, bb)
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctxs) + 1
            self.ctxs[k] = c
            self.ctxinfo[c] = k
        return c

    def site(self, fr, bb, tag=""):
        k = (fr.ctx, bb, tag)
        n = self.sitemap.get(k)
        if n is None:
            n = mk("site", len(self.sitemap) + 1, fr.body.method or fr.body.name)
            self.sitemap[k] = n
        return n

    def ev(self, kind, st, fr, span, **d):
        e = Event()
        e.kind = kind
        e.guard = st.pc
        e.known = st.known
        e.ctx = fr.ctx if fr else 0
        e.fn = fr.body.name if fr else ""
        e.span = span
        e.d = d
        e.loops = tuple(self.loopstack)
        self.events.append(e)
        return e

    def trace(self, ctx):
        """call chain of a context, outermost first"""
        out = []
        while ctx in self.ctxinfo:
            p, k, bb = self.ctxinfo[ctx]
            out.append(self.p.bodies[k].name if k in self.p.bodies else k)
            ctx = p
        return list(reversed(out))

    # ------------------------------------------------------------ types
    def sub(self, t, subst):
        if not subst:
            return t
        k = t[0]
        if k == "param":
            return subst.get(t[1], t)
        if k in ("adt", "fndef"):
            if len(t) == 2:
                return t
            return t[:2] + tuple(self.sub(x, subst) for x in t[2:])
        if k in ("ref", "ptr", "array"):
            return (k, self.sub(t[1], subst), t[2])
        if k == "slice":
            return (k, self.sub(t[1], subst))
        if k == "tuple":
            return ("tuple",) + tuple(self.sub(x, subst) for x in t[1:])
        return t

    def place_ty(self, fr, pl):
        t = self.sub(fr.body.locals[pl[0]], fr.subst)
        for e in pl[1]:
            if e == "*":
                t = t[1] if t[0] in ("ref", "ptr") else (t[2] if t[0] == "adt" and len(t) > 2 else t)
            elif e[0] == "f":
                t = self.sub(self.p.types[e[2]], fr.subst)
            elif e[0] in ("i", "ci"):
                t = t[1] if t[0] in ("array", "slice") else ("other", "?")
        return t

    def op_ty(self, fr, o):
        if o[0] in ("c", "m"):
            return self.place_ty(fr, o[1])
        if o[0] == "k":
            return self.sub(self.p.types[o[1][0]], fr.subst)
        return ("other", "?")

    # ------------------------------------------------------------ values
    def get_field(self, v, adt, var, idx, pc=None):
        """var: variant index or None"""
        op = v.op
        if op == "agg":
            n, vi, fs = v.a
            if var is not None and vi != var:
                return None
            return fs[idx] if idx < len(fs) else mk("fld", v, "", str(idx))
        if op == "rec":
            base, vi, ov = v.a
            if vi is not None and var is not None and vi != var:
                return None
            for i, x in ov:
                if i[0] == idx:
                    return x
            return self.get_field(base, adt, var, idx, pc)
        if op == "phi":
            alts = []
            for g, x in v.a[0]:
                if pc is not None and B.AND(pc, g) == 0:
                    continue
                y = self.get_field(x, adt, var, idx, pc)
                if y is not None:
                    alts.append((g, y))
            if not alts:
                return None
            return self.phi(alts)
        if op == "uninit":
            return UNINIT
        k = self.fkey(adt, var, idx)
        return mk("fld", v, k[1], k[2])

    def fkey(self, adt, var, idx):
        name = self.p.field_name(adt, var, idx) if adt else str(idx)
        vn = ""
        if var is not None and adt:
            a = self.p.adts.get(adt)
            if a and a["kind"] == "enum":
                vn = self.p.variant(adt, var)
        return (idx, vn, name)

    def set_field(self, v, adt, var, idx, x):
        if v.op == "agg" and (var is None or v.a[1] == var) and idx < len(v.a[2]):
            fs = list(v.a[2])
            fs[idx] = x
            return mk("agg", v.a[0], v.a[1], tuple(fs))
        if v.op == "rec" and (v.a[1] == var or var is None):
            base, vi, ov = v.a
            d = dict(ov)
            d[self.fkey(adt, var, idx)] = x
            return mk("rec", base, vi, tuple(sorted(d.items(), key=lambda z: z[0])))
        if v.op == "uninit":
            # field-wise initialisation
            a = self.p.adts.get(adt) if adt else None
            n = len(a["variants"][var or 0][2]) if a and a["variants"] else idx + 1
            fs = [UNINIT] * max(n, idx + 1)
            fs[idx] = x
            return mk("agg", adt or "()", var or 0, tuple(fs))
        return mk("rec", v, var, ((self.fkey(adt, var, idx), x),))

    def get_elem(self, v, i, pc=None):
        if v.op == "vec" and is_k(i) and 0 <= i.a[1] < len(v.a[0]):
            return v.a[0][i.a[1]]
        if v.op == "phi":
            alts = [(g, self.get_elem(x, i)) for g, x in v.a[0] if pc is None or B.AND(pc, g) != 0]
            return self.phi(alts) if alts else UNINIT
        if v.op == "setidx" and v.a[1] is i:
            return v.a[2]
        if v.op == "pushed":
            if i is self.length(None, v.a[0]):
                return v.a[1]
        if v.op == "appmap" and v.a[0] is EMPTY and i.op == "it":
            return subst_term(v.a[2], {v.a[3]: i})
        return mk("idx", v, i)

    def phi(self, alts):
        if len(alts) > 8:
            # guards of one join are exhaustive and disjoint: the majority value gets the complement
            cnt = {}
            for g, v in alts:
                cnt[v] = cnt.get(v, 0) + 1
            vm = max(cnt, key=lambda v: cnt[v])
            if cnt[vm] > 6 and vm.op != "phi":
                rest = [(g, v) for g, v in alts if v is not vm]
                go = 0
                for g, _ in rest:
                    go = B.OR(go, g)
                alts = rest + [(B.NOT(go), vm)]
        flat = {}
        for g, v in alts:
            if g == 0:
                continue
            if v.op == "phi":
                for g2, v2 in v.a[0]:
                    g3 = B.AND(g, g2)
                    if g3:
                        flat[v2] = B.OR(flat.get(v2, 0), g3)
            else:
                flat[v] = B.OR(flat.get(v, 0), g)
        if not flat:
            return UNINIT
        if UNINIT in flat and len(flat) > 1:
            del flat[UNINIT]
        if len(flat) == 1:
            return next(iter(flat))
        if len(flat) > self.MAXPHI:
            return mk("join", tuple(sorted(flat.keys(), key=lambda t: t.id)))
        return mk("phi", tuple(sorted(((g, v) for v, g in flat.items()), key=lambda z: z[1].id)))

    def join_val(self, parts):
        """parts: [(pc, value)]"""
        v0 = parts[0][1]
        if all(v is v0 for _, v in parts):
            return v0
        if all(v.op == "agg" and v.a[0] == v0.a[0] and v.a[1] == v0.a[1] and len(v.a[2]) == len(v0.a[2])
               for _, v in parts) if v0.op == "agg" else False:
            fs = tuple(self.join_val([(g, v.a[2][i]) for g, v in parts]) for i in range(len(v0.a[2])))
            return mk("agg", v0.a[0], v0.a[1], fs)

        if v0.op == "pushed" and all(v.op == "pushed" and v.a[0] is v0.a[0] for _, v in parts):
            return mk("pushed", v0.a[0], self.join_val([(g, v.a[1]) for g, v in parts]))

        def base(v):
            return v.a[0] if v.op == "rec" else v

        b0 = base(v0)
        if b0.op not in ("agg", "k", "phi") and all(base(v) is b0 for _, v in parts):
            vis = {v.a[1] for _, v in parts if v.op == "rec"}
            if len(vis) == 1:
                vi = vis.pop()
                idxs = sorted({i for _, v in parts if v.op == "rec" for i, _ in v.a[2]})
                ov = []
                for i in idxs:
                    ps = []
                    for g, v in parts:
                        d = dict(v.a[2]) if v.op == "rec" else {}
                        ps.append((g, d[i] if i in d else mk("fld", b0, i[1], i[2])))
                    ov.append((i, self.join_val(ps)))
                return mk("rec", b0, vi, tuple(ov))
        return self.phi(parts)

    def merge(self, sts):
        if len(sts) == 1:
            return sts[0]
        out = State()
        pc = 0
        for s in sts:
            pc = B.OR(pc, s.pc)
        out.pc = pc
        gs = [simplify(s.pc, pc) for s in sts]
        k0 = sts[0].known
        out.known = {t: v for t, v in k0.items() if all(s.known.get(t) == v for s in sts[1:])}
        g0 = sts[0].ghost
        if any(s.ghost is not g0 for s in sts):
            g = {}
            for k in {k for s in sts for k in s.ghost}:
                vs = [s.ghost[k] for s in sts if k in s.ghost]
                g[k] = frozenset().union(*vs) if isinstance(vs[0], frozenset) else min(vs)
            out.ghost = g
        else:
            out.ghost = g0
        keys = set()
        for s in sts:
            keys.update(s.store)
        st0 = sts[0].store
        for k in keys:
            vals = []
            v0 = st0.get(k)
            same = v0 is not None
            for s in sts:
                v = s.store.get(k)
                if v is None and k[0] in ("O", "T"):
                    v = self.default(k)
                if v is not v0:
                    same = False
                vals.append(v)
            if same:
                out.store[k] = v0
                continue
            ps = [(g, v) for g, v in zip(gs, vals) if v is not None]
            out.store[k] = self.join_val(ps)
        return out

    def default(self, loc):
        return loc[1] if loc[0] == "T" else mk("sym", loc[1])

    def shape(self, v, d=0, lim=2):
        if v.op == "agg":
            if d > lim:
                return None
            a = self.p.adts.get(v.a[0])
            if a is None:
                if v.a[0] == "()" and 0 < len(v.a[2]) <= 3:
                    s = tuple(self.shape(x, d + 1, lim) for x in v.a[2])
                    return ("t", s) if any(s) else None
                return None
            if a["kind"] != "enum":
                return None
            if len(v.a[2]) <= 2:
                return (v.a[1],) + tuple(self.shape(x, d + 1, lim) for x in v.a[2])
            return (v.a[1],)
        if v.op == "k" and v.a[0] == "bool":
            return v.a[1]
        return None

    def partition(self, fr, bb, sts):
        """merge states that agree on the shape of live discriminating locals"""
        if len(sts) == 1:
            return sts
        if self.pkey is not None:
            ks = {}
            for s in sts:
                ks.setdefault(self.pkey(s), []).append(s)
            if len(ks) > 1:
                return [x for k in sorted(ks) for x in self.partition(fr, bb, ks[k])]
        g = cfg(fr.body)
        live = (g.livein.get(bb, set()) | g.addr) - g.dropflags
        for lim in (2, 1, 0):
            groups = {}
            for s in sts:
                key = []
                for l in live:
                    v = s.store.get(("L", fr.ctx, l))
                    key.append(None if v is None else self.shape(v, 0, lim))
                groups.setdefault(tuple(key), []).append(s)
            if len(groups) <= self.MAXSTATES:
                return [self.merge(x) for x in groups.values()]
        return [self.merge(sts)]

    # ------------------------------------------------------------ places
    def read_loc(self, st, loc):
        v = st.store.get(loc)
        if v is None:
            if loc[0] == "L":
                return UNINIT
            return self.default(loc)
        return v

    def read_path(self, st, loc, path):
        v = self.read_loc(st, loc)
        for s in path:
            v = self.step(v, s, st.pc)
        return v

    def step(self, v, s, pc=None):
        if s[0] == "f":
            r = self.get_field(v, s[2], s[1], s[3], pc)
            return r if r is not None else mk("bottom")
        if s[0] == "e":
            return self.get_elem(v, s[1], pc)
        return mk("proj", v, s)

    def upd(self, v, path, x):
        if not path:
            return x
        s = path[0]
        if s[0] == "f":
            old = self.get_field(v, s[2], s[1], s[3])
            if old is None:
                old = UNINIT
            return self.set_field(v, s[2], s[1], s[3], self.upd(old, path[1:], x))
        if s[0] == "e":
            nv = self.upd(self.get_elem(v, s[1]), path[1:], x) if len(path) > 1 else x
            if v.op == "vec" and is_k(s[1]) and 0 <= s[1].a[1] < len(v.a[0]):
                l = list(v.a[0])
                l[s[1].a[1]] = nv
                return mk("vec", tuple(l))
            if v.op == "pushed" and s[1] is self.length(None, v.a[0]):
                return mk("pushed", v.a[0], nv)
            if v.op == "phi" and len(v.a[0]) <= 8:
                return self.phi([(g, self.upd(y, path, x)) for g, y in v.a[0]])
            return mk("setidx", v, s[1], nv)
        return mk("updated", v, x)

    def write(self, st, fr, loc, path, x, span=None, event=True):
        if event and (loc[0] != "L" or path):
            self.ev("store", st, fr, span, loc=loc, path=path, val=x)
        if path:
            x = self.upd(self.read_loc(st, loc), path, x)
        st.store[loc] = x

    def deref(self, st, v):
        """value of pointer type -> (loc, path)"""
        if v.op == "ref":
            return v.a[0], v.a[1]
        if v.op == "phi":
            alts = [(g, x) for g, x in v.a[0] if B.AND(st.pc, g) != 0]
            if len({x for _, x in alts}) == 1:
                return self.deref(st, alts[0][1])
        return ("T", v), ()

    BOXY = ("std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull", "core::ptr::unique::Unique")

    def resolve_place(self, st, fr, pl):
        """-> (loc, path, type)"""
        loc = ("L", fr.ctx, pl[0])
        path = ()
        t = fr.body.locals[pl[0]]
        if fr.subst:
            t = self.sub(t, fr.subst)
        var = None
        for e in pl[1]:
            if e == "*":
                if t[0] == "adt" and t[1] in self.BOXY:
                    t = t[2]
                    v = self.read_path(st, loc, path)
                    if v.op == "ref":
                        loc, path = v.a
                else:
                    v = self.read_path(st, loc, path)
                    t = t[1] if t[0] in ("ref", "ptr") else t
                    if v.op in ("agg", "k", "rec", "vec"):
                        # pointer erased to its pointee (boxes)
                        pass
                    else:
                        loc, path = self.deref(st, v)
                var = None
            elif e[0] == "f":
                adt = t[1] if t[0] == "adt" else None
                ft = self.p.types[e[2]]
                if fr.subst:
                    ft = self.sub(ft, fr.subst)
                if adt in self.BOXY or (adt and adt.endswith(("::Unique", "::NonNull", "MaybeUninit", "ManuallyDrop"))):
                    pass  # erased
                else:
                    path = path + (("f", var, adt, e[1]),)
                t = ft
                var = None
            elif e[0] == "d":
                var = e[1]
            elif e[0] == "i":
                i = self.read_loc(st, ("L", fr.ctx, e[1]))
                path = path + (("e", i),)
                t = t[1] if t[0] in ("array", "slice") else ("other", "?")
            elif e[0] == "ci":
                if e[3]:
                    i = mk("fromend", kint("usize", e[1]))
                else:
                    i = kint("usize", e[1])
                path = path + (("e", i),)
                t = t[1] if t[0] in ("array", "slice") else ("other", "?")
            else:
                path = path + (("x", str(e)),)
        return loc, path, t

    def val(self, st, v):
        """strip references: the pointee's value"""
        n = 0
        while v.op == "ref" and n < 6:
            v = self.read_path(st, v.a[0], v.a[1])
            n += 1
        if v.op == "phi" and any(x.op == "ref" for _, x in v.a[0]):
            return self.phi([(g, self.val(st, x)) for g, x in v.a[0] if B.AND(st.pc, g) != 0])
        return v

    # ------------------------------------------------------------ constants
    def const(self, st, fr, c):
        ti, v = c
        t = self.p.types[ti]
        k = v[0]
        if k == "int":
            return kint(t[1], v[1])
        if k == "bool":
            return kbool(v[1])
        if k == "char":
            return kchar(v[1])
        if k == "str":
            return kstr(v[1])
        if k == "f64":
            return mk("k", "f64", v[1].to_bytes(8, "big"))
        if k == "f32":
            return mk("k", "f32", v[1].to_bytes(4, "big"))
        if k == "bytes":
            return mk("k", "bytes", tuple(v[1]))
        if k == "zst":
            if t[0] == "tuple":
                return UNIT
            if t[0] == "fndef":
                return mk("fnv", t[1], t[2:])
            if t[0] == "closure":
                return mk("closure", t[1], (), tuple(sorted(fr.subst.items())) if fr.subst else ())
            if t[0] == "adt":
                return mk("agg", t[1], 0, ())
            return mk("zst", str(t))
        if k == "fn":
            return mk("fnv", v[1], tuple(sorted(fr.subst.items())) if fr and fr.subst else ())
        if k == "enumbits":
            adt = t[1]
            a = self.p.adts[adt]
            for i, vv in enumerate(a["variants"]):
                w = int(vv[1])
                if (w - v[1]) % (1 << 64) == 0 or (w & 0xFF) == v[1] or w == v[1]:
                    if not vv[2]:
                        return mk("agg", adt, i, ())
            return mk("kenum", adt, v[1])
        if k == "adt":
            return mk("agg", t[1], v[1], tuple(self.const(st, fr, x) for x in v[2]))
        if k == "static":
            return mk("ref", ("O", "static:" + v[1]), ())
        if k == "uneval":
            return self.constbody(st, fr, v[1], t)
        return mk("kopaque", str(v[1])[:80])

    def constbody(self, st, fr, key, t):
        b = self.p.bodies.get(key)
        if b is None:
            return mk("kext", key)
        c = ("constval", key)
        r = self.hooks.get(c)
        if r is not None:
            return r
        ctx = self.ctx(0, key, 0)
        f = Frame()
        f.ctx, f.body, f.subst, f.depth, f.parent, f.key, f.callspan = ctx, b, {}, 0, None, key, None
        s = State()
        n = len(self.events)
        save = self.loopstack
        self.loopstack = []
        res = self.run_body(f, s)
        self.loopstack = save
        del self.events[n:]
        v = UNINIT
        if res:
            s2 = res[0] if len(res) == 1 else self.merge(res)
            v = self.read_loc(s2, ("L", ctx, 0))
            # keep memory reachable from the constant alive (promoteds are 'static)
            v = self.close(s2, v)
        self.hooks[c] = v
        return v

    def close(self, st, v):
        """replace refs to locals in a finished constant by their pointee values"""
        if v.op == "ref":
            return self.close(st, self.read_path(st, v.a[0], v.a[1]))
        if v.op == "agg":
            return mk("agg", v.a[0], v.a[1], tuple(self.close(st, x) for x in v.a[2]))
        if v.op == "vec":
            return mk("vec", tuple(self.close(st, x) for x in v.a[0]))
        return v

    def operand(self, st, fr, o):
        if o[0] in ("c", "m"):
            pl = o[1]
            if not pl[1]:
                v = st.store.get(("L", fr.ctx, pl[0]))
                return v if v is not None else UNINIT
            loc, path, t = self.resolve_place(st, fr, pl)
            return self.read_path(st, loc, path)
        if o[0] == "k":
            return self.const(st, fr, o[1])
        return FALSE

    # ------------------------------------------------------------ arithmetic
    def discr(self, st, v, t=None):
        adt = t[1] if t and t[0] == "adt" else None
        if v.op == "agg":
            a = self.p.adts.get(v.a[0])
            return kint("d", self.p.discr(v.a[0], v.a[1])) if a else kint("d", v.a[1])
        if v.op == "rec":
            if v.a[1] is not None and self.p.adts.get(adt, {}).get("kind") == "enum":
                return kint("d", self.p.discr(adt, v.a[1]))
            return self.discr(st, v.a[0], t)
        if v.op == "phi":
            return self.phi([(g, self.discr(st, x, t)) for g, x in v.a[0] if B.AND(st.pc, g) != 0])
        d = mk("discr", v)
        if d in st.known:
            return kint("d", st.known[d])
        if adt is not None and d not in TWO:
            a = self.p.adts.get(adt)
            if a and len(a["variants"]) == 2 and {int(x[1]) for x in a["variants"]} == {0, 1}:
                TWO.add(d)
        return d

    def lift2(self, f, a, b):
        if a.op == "phi" and len(a.a[0]) <= 12:
            return self.phi([(g, self.lift2(f, x, b)) for g, x in a.a[0]])
        if b.op == "phi" and len(b.a[0]) <= 12:
            return self.phi([(g, self.lift2(f, a, x)) for g, x in b.a[0]])
        return f(a, b)

    posint = None        # terms the caller's premises make positive

    def cmp(self, op, a, b, isint=True, st=None):
        """Eq Ne Lt Le Gt Ge on terms"""
        if op == "Ne":
            return self.bnot(self.cmp("Eq", a, b, isint, st))
        return self.lift2(lambda x, y: self._cmp(op, x, y, isint, st), a, b)

    def _cmp(self, op, a, b, isint, st):
        if st is not None:
            if a in st.known and not is_k(a):
                a = self.unknown_const(a, st.known[a])
            if b in st.known and not is_k(b):
                b = self.unknown_const(b, st.known[b])
        if is_k(a) and is_k(b):
            x, y = fval(a), fval(b)
            try:
                return kbool({"Eq": x == y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
            except TypeError:
                pass
        if op == "Eq":
            if a is b and isint:
                return TRUE
            if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
                if a.a[1] != b.a[1]:
                    return FALSE
                if not a.a[2]:
                    return TRUE
            if is_k(a) and not is_k(b):
                a, b = b, a
            elif not is_k(b) and a.id > b.id:
                a, b = b, a
            if is_k(b) and b.a[0] == "bool":
                return a if b.a[1] else self.bnot(a)
            if a.op == "concat" and is_k(b) and isinstance(b.a[1], str) and not b.a[1].startswith(sys.modules["models"].shead(a)[0]):
                return FALSE
            if st is not None and isint and is_k(b) and a.op == "cast" and a.a[2] in INTS and a.a[1] in INTS:
                lo, hi = irange(a.a[1])
                l2, h2 = irange(a.a[2])
                if l2 <= lo and hi <= h2:
                    if lo <= b.a[1] <= hi:
                        return self._cmp("Eq", a.a[0], kint(a.a[1], b.a[1]), True, st)
                    return FALSE
            if a in TWO and is_k(b) and b.a[1] == 1:
                return mk("not", mk("eq", a, kint("d", 0)))
            if is_k(b) and b.a[0] in INTS:
                if b.a[1] == 0 and positive(a):
                    return FALSE
                b = kint("d", b.a[1])
            return mk("eq", a, b)
        if isint:
            if op == "Gt":
                return self._cmp("Lt", b, a, isint, st)
            if op == "Ge":
                return self.bnot(self._cmp("Lt", a, b, isint, st))
            if op == "Le":
                return self.bnot(self._cmp("Lt", b, a, isint, st))
            if a is b:
                return FALSE
            if self.posint is not None and is_k(b) and isinstance(b.a[1], int):
                if b.a[1] <= 1 and self.posint(a):
                    return FALSE
                if b.a[1] >= 0 and a.op == "Neg" and self.posint(a.a[0]):
                    return TRUE
            # canonical: lt(x, c); c < x  ==  not (x < c+1)
            if is_k(a) and isinstance(a.a[1], int):
                return self.bnot(self._cmp("Lt", b, mk("k", a.a[0], a.a[1] + 1), isint, st))
            if is_k(b) and b.a[0] in INTS and not INTS[b.a[0]][1]:
                if b.a[1] == 0:
                    return FALSE
                if b.a[1] == 1:
                    return FALSE if positive(a) else mk("eq", a, kint("d", 0))
            return mk("lt", a, b)
        if op == "Gt":
            return mk("flt", b, a)
        if op == "Ge":
            return mk("fle", b, a)
        return mk("flt" if op == "Lt" else "fle", a, b)

    def unknown_const(self, t, v):
        if isinstance(v, bool):
            return kbool(v)
        if isinstance(v, int):
            return kint("d", v)
        if isinstance(v, str):
            return kstr(v)
        return t

    def bnot(self, t):
        if t is TRUE:
            return FALSE
        if t is FALSE:
            return TRUE
        if t.op == "not":
            return t.a[0]
        if t.op == "phi":
            return self.phi([(g, self.bnot(x)) for g, x in t.a[0]])
        return mk("not", t)

    def bdd(self, st, t):
        """boolean term -> guard"""
        if t is TRUE:
            return 1
        if t is FALSE:
            return 0
        if t.op == "not":
            return B.NOT(self.bdd(st, t.a[0]))
        if t.op == "phi":
            r = 0
            for g, x in t.a[0]:
                r = B.OR(r, B.AND(g, self.bdd(st, x)))
            return r
        if t.op == "band":
            return B.AND(self.bdd(st, t.a[0]), self.bdd(st, t.a[1]))
        if t.op == "bor":
            return B.OR(self.bdd(st, t.a[0]), self.bdd(st, t.a[1]))
        if t.op == "bottom" or t.op == "uninit":
            return B.var(t)
        if t.op == "eq" and is_k(t.a[1]) and t.a[0] in st.known:
            return 1 if st.known[t.a[0]] == t.a[1].a[1] else 0
        return B.var(t)

    def fold(self, op, a, b):
        """arith on two const ints (same type); returns (value, overflow)"""
        ty = a.a[0]
        x, y = a.a[1], b.a[1]
        try:
            if op == "Add":
                r = x + y
            elif op == "Sub":
                r = x - y
            elif op == "Mul":
                r = x * y
            elif op == "Div":
                if y == 0:
                    return None
                r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            elif op == "Rem":
                if y == 0:
                    return None
                r = abs(x) % abs(y) * (1 if x >= 0 else -1)
            elif op == "BitAnd":
                r = x & y
            elif op == "BitOr":
                r = x | y
            elif op == "BitXor":
                r = x ^ y
            elif op == "Shl":
                w = INTS[ty][0]
                return wrap(ty, x << (y % w)), not 0 <= y < w
            elif op == "Shr":
                w = INTS[ty][0]
                return x >> (y % w), not 0 <= y < w
            else:
                return None
        except Exception:
            return None
        if ty not in INTS:
            return None
        w = wrap(ty, r)
        return w, w != r

    COMM = {"Add", "Mul", "BitAnd", "BitOr", "BitXor"}

    def arith(self, op, a, b):
        def f(x, y):
            if is_k(x) and is_k(y):
                if x.a[0] == "f64" or y.a[0] == "f64":
                    try:
                        u, v = fval(x), fval(y)
                        r = {"Add": lambda: u + v, "Sub": lambda: u - v, "Mul": lambda: u * v, "Div": lambda: u / v}[op]()
                        return kf64(r)
                    except Exception:
                        pass
                elif x.a[0] == "bool":
                    r = {"BitAnd": x.a[1] and y.a[1], "BitOr": x.a[1] or y.a[1], "BitXor": x.a[1] != y.a[1]}.get(op)
                    if r is not None:
                        return kbool(r)
                else:
                    r = self.fold(op, x, y)
                    if r is not None:
                        return kint(x.a[0], r[0])
            if op == "BitAnd" and (x is FALSE or y is FALSE):
                return FALSE
            if op == "BitOr" and (x is TRUE or y is TRUE):
                return TRUE
            if op in self.COMM and (is_k(x) and not is_k(y) or (not is_k(y) and not is_k(x) and x.id > y.id)):
                x, y = y, x
            if is_k(y) and y.a[0] in INTS:
                if y.a[1] == 0 and op in ("Add", "Sub", "BitOr", "BitXor", "Shl", "Shr"):
                    return x
                if op == "Mul" and y.a[1] == 1:
                    return x
                # reassociate constants: (x + c1) + c2
                if op in ("Add", "Sub") and x.op == "Add" and is_k(x.a[1]) and x.a[1].a[0] == y.a[0]:
                    c = x.a[1].a[1] + (y.a[1] if op == "Add" else -y.a[1])
                    return f(x.a[0], kint(y.a[0], c)) if c else x.a[0]
                if op == "Sub":
                    return mk("Add", x, kint(y.a[0], -y.a[1]))
            return mk(op, x, y)

        return self.lift2(f, a, b)

    def is_bool(self, t):
        return t.op in ("eq", "lt", "not", "flt", "fle", "band", "bor") or t is TRUE or t is FALSE

    def binop(self, st, fr, op, oa, ob):
        a = self.operand(st, fr, oa)
        b = self.operand(st, fr, ob)
        ta = self.op_ty(fr, oa)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.cmp(op, self.val(st, a), self.val(st, b), ta[0] in ("int", "bool", "char") or ta[0] != "float", st)
        if ta == ("bool",):
            if op == "BitAnd":
                return self.bool2("band", a, b)
            if op == "BitOr":
                return self.bool2("bor", a, b)
            if op == "BitXor":
                return self.bnot(self.cmp("Eq", a, b))
        if op.endswith("WithOverflow"):
            o = op[:-12]
            r = self.arith(o, a, b)
            if is_k(a) and is_k(b):
                f = self.fold(o, a, b)
                if f is not None:
                    return mk("agg", "()", 0, (r, kbool(f[1])))
            return mk("agg", "()", 0, (r, mk("ovf", o, ta[1], a, b)))
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op == "Cmp":
            return mk("cmp3", a, b)
        return self.arith(op, a, b)

    def bool2(self, op, a, b):
        if op == "band":
            if a is FALSE or b is FALSE:
                return FALSE
            if a is TRUE:
                return b
            if b is TRUE:
                return a
        else:
            if a is TRUE or b is TRUE:
                return TRUE
            if a is FALSE:
                return b
            if b is FALSE:
                return a
        return mk(op, a, b)

    def cast(self, v, kind, ts, td):
        if kind.startswith(("PointerCoercion", "PtrToPtr", "Transmute", "FnPtrToPtr", "Subtype", "BoxDeref")):
            if kind.startswith("Transmute") and ts[0] == "int" and td[0] == "int":
                pass
            else:
                return v
        if v.op == "phi":
            return self.phi([(g, self.cast(x, kind, ts, td)) for g, x in v.a[0]])
        if ts == td:
            return v
        tn = td[1] if td[0] in ("int", "float") else td[0]
        sn = ts[1] if ts[0] in ("int", "float") else (ts[1] if ts[0] == "adt" else ts[0])
        if v.op == "agg" and ts[0] == "adt" and tn in INTS:
            a = self.p.adts.get(ts[1])
            if a and a["kind"] == "enum":
                d = int(a["variants"][v.a[1]][1])
                return kint(tn, wrap(tn, d))
        if is_k(v):
            x = fval(v)
            if tn in INTS and isinstance(x, (int, bool)):
                return kint(tn, wrap(tn, int(x)))
            if tn in INTS and isinstance(x, float):
                lo, hi = irange(tn)
                if x != x:
                    return kint(tn, 0)
                return kint(tn, max(lo, min(hi, int(x) if abs(x) < 1e300 else (hi if x > 0 else lo))))
            if tn == "f64" and isinstance(x, (int, float)):
                return kf64(float(x))
            if tn == "f32" and isinstance(x, (int, float)):
                return kf32(x)
            if tn == "char":
                return kchar(x)
        if v.op == "cast" and v.a[1] == tn and self.widens(v.a[1], v.a[2]) and tn in INTS:
            return v.a[0]  # x:i16 -> i32 -> i16
        if v.op == "cast" and self.widens(v.a[1], v.a[2]) and self.widens(v.a[2], tn):
            return mk("cast", v.a[0], v.a[1], tn)
        return mk("cast", v, sn, tn)

    def widens(self, s, d):
        if s in INTS and d in INTS:
            a, b = irange(s), irange(d)
            return b[0] <= a[0] and a[1] <= b[1]
        if s in INTS and d == "f64":
            return INTS[s][0] <= 32
        if s == "f32" and d == "f64":
            return True
        if s == "bool" and d in INTS:
            return True
        if s == "char" and d in INTS and INTS[d][0] >= 32:
            return True
        return False

    # ------------------------------------------------------------ statements
    def rvalue(self, st, fr, r, span, dst_ty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            loc, path, t = self.resolve_place(st, fr, r[1])
            if loc[0] == "T" and not path:
                return loc[1]
            if loc[0] == "L" and r[1][1] and r[1][1][-1] == "*":
                v = self.read_path(st, loc, path)
                if v.op == "k" and v.a[0] in ("str", "bytes"):
                    return v        # reborrow of a string literal
            return mk("ref", loc, path)
        if k == "bin":
            return self.binop(st, fr, r[1], r[2], r[3])
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if self.op_ty(fr, r[2]) == ("bool",):
                    return self.bnot(v)
                if is_k(v) and v.a[0] in INTS:
                    return kint(v.a[0], wrap(v.a[0], ~v.a[1]))
                return mk("Not", v)
            if r[1] == "Neg":
                if is_k(v):
                    return kf64(-fval(v)) if v.a[0] == "f64" else kint(v.a[0], wrap(v.a[0], -v.a[1]))
                return mk("Neg", v)
            if r[1] == "PtrMetadata":
                return self.length(st, v)
            return mk("un", r[1], v)
        if k == "cast":
            v = self.operand(st, fr, r[2])
            return self.cast(v, r[1], self.op_ty(fr, r[2]), self.sub(self.p.types[r[3]], fr.subst))
        if k == "discr":
            loc, path, t = self.resolve_place(st, fr, r[1])
            return self.discr(st, self.read_path(st, loc, path), t)
        if k == "agg":
            kind = r[1]
            ops = tuple(self.operand(st, fr, o) for o in r[2])
            if kind[0] == "adt":
                n = self.p_norm(kind[1])
                if kind[4] is not None:
                    return mk("rec", mk("union", n), kind[4], (((kind[4], "", str(kind[4])), ops[0]),))
                return mk("agg", n, kind[2], ops)
            if kind[0] == "tuple":
                return mk("agg", "()", 0, ops)
            if kind[0] == "array":
                return mk("vec", ops)
            if kind[0] == "closure":
                return mk("closure", kind[1], ops, tuple(sorted(fr.subst.items())) if fr.subst else ())
            return mk("aggx", ops)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            if isinstance(r[2], int) and r[2] <= 64:
                return mk("vec", (v,) * r[2])
            return mk("repeat", v, kint("usize", r[2] or 0))
        return mk("rv", str(r)[:60])

    def alias(self, n):
        """the same function under the path of another of std, core and alloc"""
        for a in ("std::", "core::", "alloc::"):
            if n.startswith(a):
                for b in ("std::", "core::", "alloc::"):
                    m = self.models.get(b + n[len(a):])
                    if m:
                        return m
        return None

    def p_norm(self, n):
        from mir import norm
        return norm(n)

    def length(self, st, v):
        if st is not None:
            v = self.val(st, v)
        if v.op == "vec":
            return kint("usize", len(v.a[0]))
        if v.op == "k" and v.a[0] == "bytes":
            return kint("usize", len(v.a[1]))
        if v.op == "k" and v.a[0] == "str":
            return kint("usize", len(v.a[1].encode()))
        if v.op == "setidx":
            return self.length(st, v.a[0])
        if v.op == "phi":
            return self.phi([(g, self.length(st, x)) for g, x in v.a[0]])
        if v.op == "repeat":
            return v.a[1]
        if v.op == "pushed":
            return self.arith("Add", self.length(st, v.a[0]), kint("usize", 1))
        return mk("len", v)

    def exec_stmts(self, st, fr, bb):
        for s in fr.body.blocks[bb][0]:
            self.steps += 1
            dst, r, span = s
            if r[0] == "setdiscr":
                loc, path, t = self.resolve_place(st, fr, dst)
                self.write(st, fr, loc, path, mk("agg", t[1] if t[0] == "adt" else "?", r[1], ()), span)
                continue
            v = self.rvalue(st, fr, r, span, None)
            if not dst[1]:
                st.store[("L", fr.ctx, dst[0])] = v
                if str(dst[0]) in fr.body.names:
                    self.ev("set", st, fr, span, name=fr.body.names[str(dst[0])], local=dst[0], val=v)
            else:
                loc, path, t = self.resolve_place(st, fr, dst)
                self.write(st, fr, loc, path, v, span)

    def assume(self, st, g):
        """state refined by guard g (in place); False when infeasible"""
        pc = B.AND(st.pc, g)
        if pc == 0:
            return False
        st.pc = pc
        return True

    def exec_block(self, st, fr, bb):
        """-> list of (target, state); target 'R' for return"""
        if self.steps > self.maxsteps or time.time() > (self.deadline or LIMIT_AT) or time.time() > LIMIT_AT:
            raise Bound("analysis bound in %s" % fr.body.name)
        self.exec_stmts(st, fr, bb)
        t = fr.body.blocks[bb][1]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [("R", st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "unreach":
            return []
        if k == "sw":
            return self.switch(st, fr, bb, t)
        if k == "assert":
            c = self.operand(st, fr, t[1])
            g = self.bdd(st, c)
            if not t[2]:
                g = B.NOT(g)
            ops = [self.operand(st, fr, o) for o in t[4]]
            tys = [self.op_ty(fr, o) for o in t[4]]
            if B.AND(st.pc, B.NOT(g)) != 0:
                self.ev("assert", st, fr, t[6], what=t[3], ops=ops, tys=tys, cond=c, expected=t[2])
            else:
                self.ev("assert_ok", st, fr, t[6], what=t[3])
            if B.AND(st.pc, g) == 0:
                return []
            return [(t[5], st)]
        if k == "call":
            return self.call(st, fr, bb, t)
        return []

    def switch(self, st, fr, bb, t):
        cfgf = cfg(fr.body)
        if t[1][0] in ("c", "m") and not t[1][1][1] and t[1][1][0] in cfgf.dropflags:
            # drop flag: take the drop (a no-op here)
            return [(t[4], st)]
        v = self.operand(st, fr, t[1])
        ty = self.p.types[t[2]]
        if ty == ("bool",):
            c = self.bdd(st, v)
            out = []
            f = [x[1] for x in t[3] if x[0] == 0]
            tf = f[0] if f else t[4]
            tt = [x[1] for x in t[3] if x[0] == 1]
            tt = tt[0] if tt else t[4]
            pt = B.AND(st.pc, c)
            pf = B.AND(st.pc, B.NOT(c))
            if pt and pf:
                s2 = st.copy()
                s2.pc = pf
                self.learn(s2, v, False)
                out.append((tf, s2))
                st.pc = pt
                self.learn(st, v, True)
                out.append((tt, st))
            elif pt:
                st.pc = pt
                out.append((tt, st))
            elif pf:
                st.pc = pf
                out.append((tf, st))
            return out
        # integers / discriminants / chars
        return self.switch_val(st, v, t[3], t[4], 0)

    def learn(self, st, v, b):
        if v.op == "not":
            return self.learn(st, v.a[0], not b)
        if b and v.op == "eq" and is_k(v.a[1]) and v.a[1].a[0] != "f64":
            st.known[v.a[0]] = v.a[1].a[1]

    def switch_val(self, st, v, cases, other, d):
        if is_k(v):
            x = v.a[1]
            for val, tg in cases:
                if val == x:
                    return [(tg, st)]
                # enum discriminants of negative value
                if v.a[0] == "d" and isinstance(x, int) and (val - x) % (1 << 64) == 0:
                    return [(tg, st)]
            return [(other, st)]
        if v in st.known:
            return self.switch_val(st, kint("d", st.known[v]), cases, other, d)
        if v.op == "phi":
            groups = {}
            for g, x in v.a[0]:
                groups.setdefault(x, []).append(g)
            out = []
            items = list(groups.items())
            byt = {}
            for i, (x, gs) in enumerate(items):
                g = 0
                for y in gs:
                    g = B.OR(g, y)
                pc = B.AND(st.pc, g)
                if not pc:
                    continue
                s2 = st.copy()
                s2.pc = pc
                out += self.switch_val(s2, x, cases, other, d + 1)
            return out
        if v.op == "cast" and v.a[1] in INTS and v.a[2] in INTS and self.widens(v.a[1], v.a[2]):
            lo, hi = irange(v.a[1])
            return self.switch_val(st, v.a[0], [c for c in cases if lo <= c[0] <= hi], other, d)
        out = []
        rest = st.pc
        for val, tg in cases:
            if val == 0 and positive(v):
                continue
            if v in TWO and val == 1:
                a = B.NOT(B.var(mk("eq", v, kint("d", 0))))
            else:
                a = B.var(mk("eq", v, kint("d", val)))
            pc = B.AND(rest, a)
            rest = B.AND(rest, B.NOT(a))
            if pc:
                s2 = st.copy()
                s2.pc = pc
                s2.known[v] = val
                out.append((tg, s2))
        if rest:
            st.pc = rest
            out.append((other, st))
        return out

    # ------------------------------------------------------------ regions & loops
    def run_region(self, fr, blocks, entry, sts, header):
        g = cfg(fr.body)
        pend = {entry: list(sts)}
        exits, back = [], []
        first = True
        while pend:
            b = min(pend, key=lambda x: g.rpo[x])
            ss = pend.pop(b)
            if b in g.loops and not (b == header):
                res = self.run_loop(fr, b, ss, blocks)
            else:
                res = []
                for s in self.partition(fr, b, ss):
                    res += self.exec_block(s, fr, b)
            for tg, s in res:
                if tg == header and tg is not None:
                    back.append(s)
                elif tg == "R" or (blocks is not None and tg not in blocks):
                    exits.append((tg, s))
                else:
                    pend.setdefault(tg, []).append(s)
            first = False
        return exits, back

    def run_loop(self, fr, h, sts, outer):
        g = cfg(fr.body)
        blocks = g.loops[h]
        lid = self.site(fr, h, "loop")
        s0 = self.merge(sts)
        head = s0
        mark = len(self.events)
        for it in range(12):
            del self.events[mark:]
            self.loopstack.append(lid)
            exits, back = self.run_region(fr, blocks, h, [head.copy()], h)
            self.loopstack.pop()
            if not back:
                break
            sb = self.merge(back)
            new = None
            for loc, v in head.store.items():
                w = sb.store.get(loc)
                if w is None or w is v:
                    continue
                x = self.widen(v, w, lid, loc, ())
                if x is not v:
                    if new is None:
                        new = head.copy()
                    new.store[loc] = x
            for loc, w in sb.store.items():
                if loc[0] in ("O", "T") and loc not in head.store:
                    v = self.default(loc)
                    if loc[0] == "T" and self.mentions_loop(loc[1], lid):
                        continue
                    x = self.widen(v, w, lid, loc, ())
                    if x is not v:
                        if new is None:
                            new = head.copy()
                        new.store[loc] = x
            if new is None:
                self.loopinfo[lid] = {"head": head, "back": sb, "entry": s0, "fr": fr.body.name, "header": h,
                                      "ctx": fr.ctx, "backs": back, "span": fr.body.span}
                break
            head = new
        else:
            raise Bound("loop did not stabilise in %s" % fr.body.name)
        return exits

    def mentions_loop(self, t, lid):
        return any(x is lid for x in walk(t))

    def widen(self, v, w, lid, loc, path):
        if v is w:
            return v
        if v.op == "loop" and v.a[0] is lid:
            return v
        if v.op == "agg" and w.op == "agg" and v.a[:2] == w.a[:2] and len(v.a[2]) == len(w.a[2]):
            fs = tuple(self.widen(x, y, lid, loc, path + (i,)) for i, (x, y) in enumerate(zip(v.a[2], w.a[2])))
            return mk("agg", v.a[0], v.a[1], fs)

        def parts(z):
            return (z.a[0], z.a[1], dict(z.a[2])) if z.op == "rec" else (z, None, {})

        bv, iv, dv = parts(v)
        bw, iw, dw = parts(w)
        if bv is bw and bv.op not in ("agg", "k", "phi") and (v.op == "rec" or w.op == "rec"):
            vi = iv if v.op == "rec" else iw
            ov = {}
            for i in sorted(set(dv) | set(dw)):
                a = dv.get(i) or mk("fld", bv, i[1], i[2])
                b = dw.get(i) or mk("fld", bv, i[1], i[2])
                ov[i] = self.widen(a, b, lid, loc, path + (i,))
            return mk("rec", bv, vi, tuple(sorted(ov.items(), key=lambda z: z[0])))
        return mk("loop", lid, self.locterm(loc), path)

    def locterm(self, loc):
        return mk("loc", *loc)

    # ------------------------------------------------------------ bodies
    def run_body(self, fr, st):
        """states at return"""
        g = cfg(fr.body)
        self.analysed.add(fr.body.key)
        self.stack.append(fr.body.key)
        try:
            exits, _ = self.run_region(fr, None, 0, [st], None)
        finally:
            self.stack.pop()
        return [s for t, s in exits]

    def inline(self, st, fr, bb, body, args, subst, span):
        """-> [(state, ret)]"""
        f = Frame()
        f.ctx = self.ctx(fr.ctx if fr else 0, body.key, bb)
        f.body = body
        f.subst = subst
        f.depth = (fr.depth if fr else 0) + 1
        f.parent = fr
        f.key = body.key
        f.callspan = span
        for i, a in enumerate(args):
            st.store[("L", f.ctx, i + 1)] = a
        outs = self.run_body(f, st)
        groups = {}
        for s in outs:
            r = self.read_loc(s, ("L", f.ctx, 0))
            groups.setdefault((self.shape(r), self.pkey(s) if self.pkey else None), []).append(s)
        res = []
        for ss in groups.values():
            s = self.merge(ss)
            r = self.read_loc(s, ("L", f.ctx, 0))
            c = f.ctx
            s.store = {k: v for k, v in s.store.items() if not (k[0] == "L" and k[1] == c)}
            res.append((s, r))
        return res

    # ------------------------------------------------------------ calls
    def resolve_fn(self, fr_, subst):
        """fn record -> (body or None, name, subst for callee, generic args)"""
        key = fr_.get("rkey", fr_["key"])
        rk = fr_.get("rkind", "item")
        name = fr_.get("rname", fr_["name"])
        args = tuple(self.sub(a, subst) for a in fr_.get("rargs", fr_["args"]))
        b = self.p.bodies.get(key) if rk in ("item", "closure_once") else None
        if b is None and fr_.get("trait") and fr_["args"]:
            st = self.sub(fr_["args"][0], subst)
            m = fr_["key"].rsplit("::", 1)[-1]
            for self_ty, methods in self.p.impls.get(fr_["trait"], []):
                sb = {}
                if self.unify(self_ty, st, sb) and m in methods:
                    b = self.p.bodies.get(methods[m])
                    if b is not None:
                        return b, b.name, {n: sb.get(n, ("param", n, 0)) for n in b.generics}, args
        if b is not None:
            return b, b.name, dict(zip(b.generics, args)), args
        return None, name, None, args

    def unify(self, pat, t, sb):
        if pat[0] == "param":
            sb[pat[1]] = t
            return True
        if pat[0] != t[0]:
            return False
        if pat[0] in ("adt", "fndef"):
            return pat[1] == t[1] and len(pat) == len(t) and all(self.unify(a, b, sb) for a, b in zip(pat[2:], t[2:]))
        if pat[0] in ("ref", "ptr"):
            return self.unify(pat[1], t[1], sb)
        if pat[0] == "tuple":
            return len(pat) == len(t) and all(self.unify(a, b, sb) for a, b in zip(pat[1:], t[1:]))
        return pat == t

    def call(self, st, fr, bb, t):
        fop, aops, dst, target, span = t[1], t[2], t[3], t[4], t[5]
        args = [self.operand(st, fr, a) for a in aops]
        atys = [self.op_ty(fr, a) for a in aops]
        dloc, dpath, dty = self.resolve_place(st, fr, dst)
        if fop[0] == "k" and fop[1][1][0] == "fn":
            rec = self.p.fns[fop[1][1][1]]
            res = self.call_rec(st, fr, bb, rec, fr.subst, args, atys, dty, span)
        else:
            f = self.operand(st, fr, fop)
            res = self.call_value(st, fr, bb, f, args, span, dty)
        out = []
        for s, r in res:
            if target is None:
                continue
            if self.on_result is not None:
                self.on_result(self, s, fr, r, dty, span, fop)
            loc, path, _ = (dloc, dpath, dty) if not dst[1] else self.resolve_place(s, fr, dst)
            if not dst[1]:
                s.store[("L", fr.ctx, dst[0])] = r
                if str(dst[0]) in fr.body.names:
                    self.ev("set", s, fr, span, name=fr.body.names[str(dst[0])], local=dst[0], val=r)
            else:
                self.write(s, fr, loc, path, r, span)
            out.append((target, s))
        return out

    def call_rec(self, st, fr, bb, rec, subst, args, atys, dty, span):
        tr = rec.get("trait")
        if tr in ("std::ops::Fn", "std::ops::FnMut", "std::ops::FnOnce"):
            f = self.val(st, args[0])
            if f.op in ("closure", "fnv"):
                a = args[1]
                xs = [self.get_field(a, None, None, i) for i in range(len(atys[1]) - 1)] if len(atys) > 1 and atys[1][0] == "tuple" else [a]
                return self.call_value(st, fr, bb, args[0], xs, span, dty)
        body, name, csub, gargs = self.resolve_fn(rec, subst)
        info = {"name": name, "decl": rec["name"], "gargs": gargs, "atys": atys, "dty": dty, "rec": rec, "bb": bb,
                "span": span, "body": body}
        if self.on_call is not None:
            self.on_call(self, st, fr, args, info)
        h = self.hooks.get(name) or (body is not None and self.hooks.get(body.key)) or self.hooks.get(rec["name"])
        if h:
            r = h(self, st, fr, args, info)
            if r is not None:
                return r
        m = self.models.get(name) or self.models.get(rec["name"])
        if m is None and body is None:
            m = self.alias(name) or self.alias(rec["name"])
        if m is None and body is None:
            for pre, f in self.prefix_models:
                if name.startswith(pre) or rec["name"].startswith(pre):
                    m = f
                    break
        if m:
            r = m(self, st, fr, args, info)
            if r is not None:
                return r
        if body is not None:
            # derived comparisons / clones
            if body.derived:
                r = self.derived(st, fr, body, args, info)
                if r is not None:
                    return r
            if not self.opaque(body) and body.key not in self.stack and (fr.depth < self.MAXDEPTH):
                if fr.subst and not csub:
                    csub = {}
                return self.inline(st, fr, bb, body, args, csub or {}, span)
            return self.ext(st, fr, args, info, local=True)
        return self.ext(st, fr, args, info)

    def derived(self, st, fr, body, args, info):
        tr = body.trait
        if tr.endswith("::Clone") and body.method == "clone":
            return [(st, self.val(st, args[0]))]
        if tr.endswith("::PartialEq") and body.method == "eq":
            return [(st, self.val_eq(st, args[0], args[1], body.self_ty))]
        if tr.endswith("::PartialOrd"):
            return None
        return None

    def val_eq(self, st, a, b, ty=None):
        a, b = self.val(st, a), self.val(st, b)
        if ty and ty[0] == "adt":
            ad = self.p.adts.get(ty[1])
            if ad and ad["kind"] == "enum" and all(not v[2] for v in ad["variants"]):
                return self.cmp("Eq", self.discr(st, a, ty), self.discr(st, b, ty), True, st)
        return self.cmp("Eq", a, b, not (ty and ty[0] == "float"), st)

    def call_value(self, st, fr, bb, f, args, span, dty=None):
        """call a closure / fn value"""
        f0 = f
        f = self.val(st, f)
        if f.op == "closure":
            b = self.p.bodies.get(f.a[0])
            if b is None or b.key in self.stack or fr.depth > self.MAXDEPTH:
                return [(st, mk("callv", f, self.site(fr, bb), tuple(self.val(st, a) for a in args)))]
            selfty = b.locals[1]
            if selfty[0] == "ref":
                if f0.op == "ref":
                    selfv = f0
                else:
                    loc = ("L", ("clo", fr.ctx, bb), 0)
                    st.store[loc] = f
                    selfv = mk("ref", loc, ())
            else:
                selfv = f
            # captured fields are accessed as tuple-like fields of the closure
            st2 = st
            loc = None
            clos = mk("agg", "{closure}", 0, f.a[1])
            if selfv.op == "ref":
                st2.store[selfv.a[0]] = clos if not selfv.a[1] else st2.store.get(selfv.a[0], UNINIT)
                if selfv.a[1]:
                    l2 = ("L", ("clo", fr.ctx, bb), 0)
                    st2.store[l2] = clos
                    selfv = mk("ref", l2, ())
            else:
                selfv = clos
            restore = selfv.a[0] if selfv.op == "ref" else None
            res = self.inline(st2, fr, bb, b, [selfv] + list(args), dict(f.a[2]), span)
            for s, r in res:
                if restore is not None:
                    c2 = s.store.get(restore)
                    if c2 is not None and c2.op == "agg":
                        s.store[restore] = mk("closure", f.a[0], c2.a[2], f.a[2])
            return res
        if f.op == "fnv" and isinstance(f.a[0], int):
            rec = self.p.fns[f.a[0]]
            return self.call_rec(st, fr, bb, rec, dict(f.a[1]), args, [("other", "?")] * len(args), dty or ("other", "?"), span)
        if f.op == "fnv":
            key = f.a[0]
            b = self.p.bodies.get(key)
            if b is not None:
                rec = {"key": key, "name": b.name, "args": ()}
                return self.call_rec(st, fr, bb, rec, {}, args, [("other", "?")] * len(args), dty or ("other", "?"), span)
            return [(st, mk("call", key, tuple(self.val(st, a) for a in args)))]
        return [(st, mk("callv", f, self.site(fr, bb), tuple(self.val(st, a) for a in args)))]

    def ext(self, st, fr, args, info, local=False, pure=False):
        """uninterpreted call: event, opaque result, &mut arguments havocked"""
        vals = tuple(self.val(st, a) for a in args)
        name = info["name"]
        s = self.site(fr, info["bb"])
        if not local:
            self.unknown[name] = self.unknown.get(name, 0) + 1
        self.ev("call", st, fr, info["span"], name=name, decl=info["decl"], args=args, vals=vals, info=info, local=local, site=s)
        for a, t in zip(args, info["atys"]):
            self.havoc_arg(st, fr, a, t, name, s, info)
        # closures handed to unknown code may run any number of times
        for a in args:
            v = self.val(st, a)
            if v.op == "closure" and v.a[0] in self.p.bodies and v.a[0] not in self.stack:
                st = self.maybe_call(st, fr, info, a, v, s)
        r = mk("call", name, s, vals)
        return [(st, r)]

    def maybe_call(self, st, fr, info, a, v, s):
        b = self.p.bodies[v.a[0]]
        n = b.argc - 1
        xs = [mk("cbarg", s, i) for i in range(n)]
        s2 = st.copy()
        self.loopstack.append(s)
        res = self.call_value(s2, fr, ("cb", info["bb"]), a, xs, info["span"])
        self.loopstack.pop()
        allr = [st] + [x for x, _ in res]
        pc = st.pc
        m = self.merge(allr)
        m.pc = pc
        return m

    def havoc_arg(self, st, fr, a, t, name, s, info):
        if t[0] == "ref" and t[2] and a.op == "ref":
            old = self.read_path(st, a.a[0], a.a[1])
            self.write(st, fr, a.a[0], a.a[1], mk("mut", name, s, old), info["span"], event=False)
        elif t[0] == "ref" and t[2] and a.op != "ref":
            loc, path = self.deref(st, a)
            self.write(st, fr, loc, path, mk("mut", name, s, self.read_path(st, loc, path)), info["span"], event=False)

    # ------------------------------------------------------------ entry
    def run(self, body, args=None, st=None, subst=None):
        """analyse `body` with symbolic arguments; returns [(state, ret)]"""
        st = st or State()
        if args is None:
            args = []
            for i in range(body.argc):
                args.append(self.sym_arg(body, i))
        out = []

        def go():
            try:
                out.append(self.inline(st, None, 0, body, args, subst or {}, body.span))
            except BaseException as e:
                out.append(e)

        th = threading.Thread(target=go)
        th.start()
        th.join()
        if isinstance(out[0], BaseException):
            raise out[0]
        return out[0]

    def sym_arg(self, body, i):
        t = body.locals[i + 1]
        n = body.names.get(str(i + 1), "arg%d" % i)
        # arguments with a role known by their type keep one name however the code calls them
        if i > 0 or n != "self":
            if t[0] == "ref" and t[1][0] == "adt":
                if t[1][1] == "std::vec::Vec" and t[1][2][:2] == ("adt", "code_pair::CodePair"):
                    n = "pairs"
                elif t[1][1] == "code_pair_put_back::CodePairPutBack":
                    n = "iter"
                elif t[1][1] == "drawing::Drawing":
                    n = "drawing"
            elif t == ("adt", "enums::AcadVersion"):
                n = "version"
            elif t == ("bool",) and sum(body.locals[j + 1] == ("bool",) for j in range(body.argc)) == 1 and \
                    any(body.locals[j + 1][0] == "ref" and body.locals[j + 1][1][:2] == ("adt", "std::vec::Vec") for j in range(body.argc)):
                n = "write_handles"
        if t[0] == "ref":
            return mk("ref", ("O", n), ())
        return mk("sym", n)


EMPTY = mk("vec", ())


def subst_term(t, m, memo=None):
    """replace sub-terms (keys of m) bottom-up"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst_term(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op == "phi":
        alts = []
        for g, x in t.a[0]:
            alts.append((subst_guard(g, m, memo), subst_term(x, m, memo)))
        r = mk("phi", tuple(sorted(alts, key=lambda z: z[1].id)))
    else:
        a = tuple(subst_term(x, m, memo) for x in t.a)
        r = t if a == t.a else mk(t.op, *a)
    memo[t] = r
    return r


def subst_guard(g, m, memo=None):
    if g < 2:
        return g
    memo = {} if memo is None else memo
    v, lo, hi = B.nodes[g]
    a = B.atoms[v]
    b = subst_term(a, m, memo)
    if b is TRUE or b is FALSE:
        return subst_guard(hi if b is TRUE else lo, m, memo)
    if b.op == "eq" and is_k(b.a[0]) and is_k(b.a[1]):
        return subst_guard(hi if fval(b.a[0]) == fval(b.a[1]) else lo, m, memo)
    return B.ite(B.var(b) if b.op != "not" else B.NOT(B.var(b.a[0])), subst_guard(hi, m, memo), subst_guard(lo, m, memo))


def simplify(f, care):
    """Coudert-Madre style restriction of f to the care set"""
    return _simp(f, care)


_smemo = {}


def _simp(f, c):
    if c == 1 or f < 2:
        return f
    if c == 0:
        return 0
    if f == c:
        return 1
    k = (f, c)
    r = _smemo.get(k)
    if r is not None:
        return r
    fv, fl, fh = B.nodes[f]
    cv, cl, ch = B.nodes[c]
    if cv < fv:
        r = _simp(f, B.OR(cl, ch))
    else:
        if cv > fv:
            cl = ch = c
        if cl == 0:
            r = _simp(fh, ch)
        elif ch == 0:
            r = _simp(fl, cl)
        else:
            r = B._mk(fv, _simp(fl, cl), _simp(fh, ch))
    _smemo[k] = r
    return r
