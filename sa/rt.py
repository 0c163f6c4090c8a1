"""Composition of writers and readers.

`emit`  runs a writer abstractly and returns the ordered, guarded, loop-structured table of the code
        pairs it can produce, every value being a provenance term over the written item's fields.
`Feed`  applies the reader's transfer function to that table: loops of the reader that consume pairs are
        followed pair by pair (states at the same position are joined), optional pairs are joined under
        their guard, and a repeated group is applied to a generic element and summarised by the loop rule
        (appended / overwritten).
`Cmp`   compares what the reader ends up with to what was written, field by field.
"""
import interp
from interp import *
from terms import *
from mir import cfg

POS = ("O", "$pos")
CP = "code_pair::CodePair"
CPV = "code_pair_value::CodePairValue"


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ program anchors, found by type
def is_pairs_ty(t):
    return t[0] == "ref" and t[1][0] == "adt" and t[1][1] == "std::vec::Vec" and t[1][2][:2] == ("adt", CP)


def mentions(t, adt, d=0):
    if t[0] == "adt" and t[1] == adt:
        return True
    if d > 4:
        return False
    return any(mentions(x, adt, d + 1) for x in t[1:] if isinstance(x, tuple) and x)


PUTBACK = "code_pair_put_back::CodePairPutBack"


def putback_next(p):
    for b in p.bodies.values():
        if b.method == "next" and b.trait and b.trait.endswith("Iterator") and b.self_ty == ("adt", PUTBACK):
            return b
    raise Unsupported("no Iterator::next for CodePairPutBack")


def putback_put(p):
    r = [b for b in p.bodies.values() if b.isfn and b.name.startswith(PUTBACK) and b.argc == 2 and b.locals[1][0] == "ref"]
    if len(r) != 1:
        raise Unsupported("put_back not identified")
    return r[0]


def method(p, adt, name):
    """the method `name` of type adt (any impl block)"""
    r = []
    for b in p.bodies.values():
        if b.isfn and b.method == name and not b.trait and b.self_ty and b.self_ty[0] == "adt" and b.self_ty[1] == adt:
            r.append(b)
    if len(r) != 1:
        raise Unsupported("%s::%s not found" % (adt, name))
    return r[0]


# ------------------------------------------------------------------ emission
def versions(p):
    return [v[0] for v in p.adts["enums::AcadVersion"]["variants"]]


def at_version(vsym, vi):
    d = mk("discr", vsym)

    def f(a):
        if a.op == "lt" and a.a[0] is d and is_k(a.a[1]):
            return vi < a.a[1].a[1]
        if a.op == "lt" and a.a[1] is d and is_k(a.a[0]):
            return a.a[0].a[1] < vi
        if a.op == "eq" and a.a[0] is d and is_k(a.a[1]):
            return vi == a.a[1].a[1]
        if a.op == "eq" and a.a[0] is vsym and a.a[1].op == "agg":
            return vi == a.a[1].a[1]
        return None
    return f


def is_hasnext(a):
    return a.op == "hasnext"


class Emission:
    """items: ('pair', guard, pair) | ('loop', lid, C, itix, [items]) | ('sub', guard, name, vals)"""


def emit(p, body, args=None, st=None, opaque=lambda b: False, hooks=None, fixed=None, posint=None):
    it = Interp(p, opaque=opaque, hooks=dict(hooks or {}))
    it.posint = posint
    it.deadline = time.time() + 120
    st = st or State()
    r = it.run(body, args=args, st=st)
    return it, tree(it, fixed), r


def tree(it, fixed=None, loc=("O", "pairs")):
    """loop-structured list of emission events"""
    src = {}
    for e in it.events:
        if e.kind == "iter" and e.loops:
            src.setdefault(e.loops[-1], (e.d["src"], mk("it", e.d["site"])))
    root = []
    stack = [(None, root)]

    def clean(g):
        return B.exists(g, is_hasnext)

    def at(loops):
        while len(stack) - 1 > len(loops) or any(stack[i + 1][0] is not loops[i] for i in range(len(stack) - 1)):
            stack.pop()
        while len(stack) - 1 < len(loops):
            lid = loops[len(stack) - 1]
            items = []
            C, ix = src.get(lid, (None, None))
            stack[-1][1].append(("loop", lid, C, ix, items))
            stack.append((lid, items))
        return stack[-1][1]

    for e in it.events:
        if e.kind in ("push", "extend", "vappend", "append") and e.d.get("loc") == loc and not e.d.get("path"):
            g = clean(e.guard)
            if e.kind == "push":
                at(e.loops).append(("pair", g, e.d["val"]))
            else:
                xs = e.d.get("args") or [e.d.get("val")]
                x = xs[0]
                if x is not None and x.op in ("vec",):
                    for y in x.a[0]:
                        at(e.loops).append(("pair", g, y))
                else:
                    at(e.loops).append(("sub", g, e.kind, (x,)))
        elif e.kind == "call" and e.d.get("local") and any(is_pairs_ty(t) for t in e.d["info"]["atys"]):
            at(e.loops).append(("sub", clean(e.guard), e.d["name"], e.d["vals"], e.d["info"]))
        elif e.kind == "call" and any(is_pairs_ty(t) and t[2] for t in e.d["info"]["atys"]):
            at(e.loops).append(("sub", clean(e.guard), e.d["name"], e.d["vals"], e.d["info"]))
    return unroll(root)


def unroll(items, m=None):
    """loops over lists of known length become plain sequences"""
    out = []
    for i in items:
        if i[0] == "loop":
            _, lid, C, ix, sub = i
            if m and C is not None:
                C = subst_term(C, m)
                ix = subst_term(ix, m) if ix is not None else None
            if C is not None and C.op == "vec" and len(C.a[0]) <= 64:
                for x in C.a[0]:
                    m2 = dict(m or {})
                    m2[mk("idx", i[2], i[3])] = x
                    out += unroll(sub, m2)
            else:
                out.append(("loop", lid, C, ix, unroll(sub, m)))
        elif not m:
            out.append(i)
        elif i[0] == "pair":
            g = subst_guard(i[1], m)
            if g:
                out.append(("pair", g, subst_term(i[2], m)))
        else:
            g = subst_guard(i[1], m)
            if g:
                out.append((i[0], g, i[2], tuple(subst_term(x, m) for x in i[3])) + i[4:])
    return out


def empty_atom(a, lst):
    """atom that says whether the list has elements: +1 it has, -1 it has none, 0 something else"""
    if a.op == "any" and a.a[0] is lst and a.a[1] is TRUE:
        return 1
    if a.op == "eq" and a.a[0].op == "len" and a.a[0].a[0] is lst and is_k(a.a[1]) and a.a[1].a[1] == 0:
        return -1
    if a.op in ("hasnext", "nonempty") and a.a[0] is lst:
        return 1
    if a.op == "isempty" and a.a[0] is lst:
        return -1
    return 0


def known_empty(pc, lst):
    for a in B.support(pc):
        k = empty_atom(a, lst)
        if (k == 1 and B.AND(pc, B.var(a)) == 0) or (k == -1 and B.AND(pc, B.NOT(B.var(a))) == 0):
            return True
    return False


def at_length(lens):
    """valuation of the atoms that the lengths of the lists decide"""
    env = {mk("len", c): n for c, n in lens.items()}

    def f(a):
        for c, n in lens.items():
            k = empty_atom(a, c)
            if k:
                return (n > 0) == (k > 0)
        x = evnum(a, env)
        return None if x is None else bool(x)
    return f


def bounded(items, n, lens, m=None):
    """every list has exactly n elements; lens collects the lists"""
    out = []
    for i in items:
        if i[0] == "loop":
            _, lid, C, ix, sub = i
            if C is None or C.op not in ("fld", "sym", "idx"):
                raise Unsupported("emission loop over %s" % (show(C)[:80] if C is not None else None))
            C2 = subst_term(C, m) if m else C
            lens[C2] = n
            for k in range(n):
                m2 = dict(m or {})
                m2[mk("idx", C, ix)] = mk("idx", C2, kint("usize", k))
                out += bounded(sub, n, lens, m2)
        else:
            out += unroll([i], m) if m else [i]
    return out


def restrict(items, fn):
    """items under a partial valuation of atoms; drops what cannot be emitted"""
    out = []
    for i in items:
        if i[0] == "loop":
            sub = restrict(i[4], fn)
            if sub:
                out.append(i[:4] + (sub,))
        else:
            g = B.restrict(i[1], fn)
            if g:
                out.append((i[0], g) + i[2:])
    return out


def signature(items):
    return tuple((i[0],) + tuple(x if not isinstance(x, (list, dict)) else None for x in i[1:4]) + ((signature(i[4]),) if i[0] == "loop" else ()) for i in items)


def flatten_pairs(items, loops=()):
    for i in items:
        if i[0] == "loop":
            yield from flatten_pairs(i[4], loops + (i,))
        else:
            yield i, loops


def pair_code(p):
    """int code of a pair term or None"""
    if p.op == "agg" and p.a[0] == CP and is_k(p.a[2][0]):
        return p.a[2][0].a[1]
    return None


def pair_val(prog, p):
    """(variant name, payload)"""
    if p.op == "agg" and p.a[0] == CP and p.a[2][1].op == "agg":
        v = p.a[2][1]
        return prog.variant(CPV, v.a[1]), (v.a[2][0] if v.a[2] else None)
    return None, None


def mkpair(prog, code, payload, variant="Str"):
    v = mk("agg", CPV, prog.variant_ix(CPV, variant), (payload,))
    return mk("agg", CP, 0, (kint("i32", code), v, kint("usize", 0)))


# ------------------------------------------------------------------ feeding
class Feed(Interp):
    """reader applied to an emission table"""
    MAXSTATES = 16
    MAXPHI = 96

    def __init__(self, prog, items, opaque=lambda b: False, hooks=None, tail=()):
        super().__init__(prog, opaque, dict(hooks or {}))
        self.flat = []
        self.flatten(items)
        self.endpos = len(self.flat)
        for t in tail:
            self.flat.append(("pair", 1, t))
        self.pkey = self.pos
        self.nextb = putback_next(prog)
        self.putb = putback_put(prog)
        self.hooks[self.nextb.key] = self.h_next
        self.hooks[self.nextb.name] = self.h_next
        self.hooks[self.putb.key] = self.h_put
        self.stops = []
        self.events_off = True
        self.site_base = 1000000
        self.deadline = time.time() + 240

    def site(self, fr, bb, tag=""):
        k = (fr.ctx, bb, tag)
        n = self.sitemap.get(k)
        if n is None:
            n = mk("site", 1000000 + len(self.sitemap) + 1, fr.body.method or fr.body.name)
            self.sitemap[k] = n
        return n

    def flatten(self, items):
        for i in items:
            if i[0] == "pair":
                self.flat.append(i)
            elif i[0] == "loop":
                if i[2] is None:
                    raise Unsupported("emission loop without a recognised source")
                g = 0
                for j, _ in flatten_pairs(i[4]):
                    g = B.OR(g, j[1])
                # element-dependent atoms do not decide whether the loop runs
                b = len(self.flat)
                self.flat.append(None)
                self.flatten(i[4])
                self.flat[b] = ("begin", i[1], len(self.flat), g, i[2], i[3])
                self.flat.append(("end", b))
            else:
                x = self.sub_pair(i)
                if x is not None:
                    self.flat.append(("pair", i[1], x))

    def sub_pair(self, i):
        raise Unsupported("opaque writer %s" % i[2])

    def premise(self, pair):
        """what is assumed of a pair whose code is data"""
        return 1

    # ---- position
    def pos(self, st):
        v = st.store.get(POS)
        return v.a[1] if v is not None else -1

    def setpos(self, st, p, last=None):
        st.store[POS] = kint("pos", p)
        if last is not None:
            st.store[("O", "$last")] = kint("pos", last)

    def alternatives(self, p, pc):
        """first present pair at or after p: [(pc, pair or None, newpos, crossing)]"""
        out = []
        cross = False
        while True:
            if p >= len(self.flat):
                out.append((pc, None, p, cross))
                return out
            i = self.flat[p]
            if i[0] == "pair":
                g = B.AND(pc, i[1])
                if g:
                    out.append((g, i[2], p + 1, cross))
                pc = B.AND(pc, B.NOT(i[1]))
                if not pc:
                    return out
                p += 1
            elif i[0] == "begin":
                # may enter (only to look at it) or pass
                for a in self.alternatives_in(p + 1, pc, i[2]):
                    out.append(a)
                cross = True
                p = i[2] + 1
            else:
                b = self.flat[i[1]]
                for a in self.alternatives_in(i[1] + 1, pc, p):
                    out.append(a)
                cross = True
                p += 1

    def alternatives_in(self, p, pc, end):
        out = []
        while p < end and pc:
            i = self.flat[p]
            if i[0] == "pair":
                g = B.AND(pc, i[1])
                if g:
                    out.append((g, i[2], p + 1, True))
                pc = B.AND(pc, B.NOT(i[1]))
                p += 1
            elif i[0] == "begin":
                out += self.alternatives_in(p + 1, pc, i[2])
                p = i[2] + 1
            else:
                p += 1
        return out

    def h_next(self, it, st, fr, args, info):
        p = self.pos(st)
        if p < 0:
            return None
        if st.store.get(("O", "$peek")) is TRUE:
            raise Unsupported("reader consumes a repeated group outside a consuming loop in %s" % fr.body.name)
        out = []
        if st.store.get(("O", "$enter")) is TRUE and p < len(self.flat) and self.flat[p][0] == "begin":
            alts = self.alternatives_in(p + 1, st.pc, self.flat[p][2])
        else:
            alts = self.alternatives(p, st.pc)
        st.store[("O", "$enter")] = FALSE
        for pc, pair, np, cross in alts:
            pc = B.AND(pc, self.premise(pair))
            if not pc:
                continue
            s = st.copy()
            s.pc = pc
            self.setpos(s, np, p)
            s.store[("O", "$peek")] = TRUE if cross else FALSE
            if pair is None:
                s.store[("O", "$peek")] = FALSE
                out.append((s, NONE))
            else:
                s.store[("O", "$lastpair")] = pair
                out.append((s, some(ok(pair))))
        return out

    def h_put(self, it, st, fr, args, info):
        last = st.store.get(("O", "$last"))
        if last is None:
            return None
        x = self.val(st, args[1])
        lp = st.store.get(("O", "$lastpair"))
        good = x.op == "agg" and x.a[0] == RESULT and x.a[1] == 0 and self.val(st, x.a[2][0]) is lp
        if not good:
            raise Unsupported("put_back of something other than the last pair in %s: %s / %s" % (fr.body.name, show(x), show(lp) if lp else None))
        self.setpos(st, last.a[1])
        st.store[("O", "$peek")] = FALSE
        return [(st, UNIT)]

    def start(self, st=None):
        st = st or State()
        self.setpos(st, 0, 0)
        st.store[("O", "$peek")] = FALSE
        st.store[("O", "$lastpair")] = UNINIT
        return st

    # ---- loops of the reader
    def consuming(self, fr, h):
        g = cfg(fr.body)
        c = getattr(fr.body, "_consuming", None)
        if c is None:
            c = fr.body._consuming = {}
        r = c.get(h)
        if r is None:
            r = False
            for b in g.loops[h]:
                t = fr.body.blocks[b][1]
                if t[0] == "call":
                    for o in t[2]:
                        ty = self.op_ty(fr, o)
                        if ty[0] == "ref" and ty[2] and (mentions(ty, PUTBACK) or self.reaches_putback(ty)):
                            r = True
            c[h] = r
        return r

    def reaches_putback(self, ty, d=0):
        """a type that holds the stream of pairs: directly, as a type argument or in a field of a struct"""
        if ty[0] in ("ref", "ptr"):
            return self.reaches_putback(ty[1], d)
        if ty[0] != "adt" or d > 4:
            return False
        if ty[1] == PUTBACK or any(self.reaches_putback(x, d + 1) for x in ty[2:] if isinstance(x, tuple) and x):
            return True
        a = self.p.adts.get(ty[1])
        return bool(a) and a["kind"] != "enum" and any(f[1] is not None and mentions(f[1], PUTBACK) for v in a["variants"] for f in v[2])

    def run_loop(self, fr, h, sts, outer):
        if self.pos(sts[0]) < 0:
            return self.plain_loop(fr, h, sts, outer)
        if not self.consuming(fr, h):
            by = {}
            for s in sts:
                by.setdefault(self.pos(s), []).append(s)
            out = []
            for k in sorted(by):
                out += self.plain_loop(fr, h, by[k], outer)
            return out
        blocks = cfg(fr.body).loops[h]
        lid = self.site(fr, h, "loop")
        exits = []
        pend = {}
        for s in sts:
            pend.setdefault(self.pos(s), []).append(s)
        self.drive(fr, h, blocks, lid, pend, exits, None)
        return exits

    def drive(self, fr, h, blocks, lid, pend, exits, stop):
        """advance states at the loop head; returns the states that reach position `stop`"""
        done = []
        guard = 0
        while pend:
            p = min(pend)
            ss = pend.pop(p)
            if p == stop:
                done += ss
                continue
            guard += 1
            if guard > 4000:
                raise Unsupported("reader loop in %s makes no progress" % fr.body.name)
            i = self.flat[p] if p < len(self.flat) else None
            if i is not None and i[0] == "begin":
                for s in self.partition(fr, h, ss):
                    ex3 = []
                    try:
                        res = self.group(fr, h, blocks, lid, s.copy(), p, i, ex3)
                    except Unsupported as e:
                        ex3 = []
                        res = self.through(fr, h, blocks, lid, s.copy(), p, i, ex3, e)
                    exits += ex3
                    for s2 in res:
                        pend.setdefault(self.pos(s2), []).append(s2)
                continue
            if i is not None and i[0] == "pair" and i[1] != 1:
                run, skip = [], []
                for s in ss:
                    a, b = B.AND(s.pc, i[1]), B.AND(s.pc, B.NOT(i[1]))
                    if a and b:
                        s2 = s.copy()
                        s2.pc = b
                        self.setpos(s2, p + 1)
                        skip.append(s2)
                        s.pc = a
                        run.append(s)
                    elif a:
                        run.append(s)
                    else:
                        self.setpos(s, p + 1)
                        skip.append(s)
                if skip:
                    pend.setdefault(p + 1, []).extend(skip)
                ss = run
                if not ss:
                    continue
            for s in self.partition(fr, h, ss):
                self.loopstack.append(lid)
                ex, back = self.run_region(fr, blocks, h, [s], h)
                self.loopstack.pop()
                exits += ex
                for b in back:
                    q = self.pos(b)
                    if q <= p:
                        raise Unsupported("reader loop in %s makes no progress at pair %d" % (fr.body.name, p))
                    pend.setdefault(q, []).append(b)
        return done

    def through(self, fr, h, blocks, lid, s, p, item, exits, why):
        """a loop whose body looks at the first element of a repeated group, puts it back and leaves the whole group to an inner loop"""
        C = item[4]
        e = B.var(mk("isempty", C))
        out = []
        s0 = s.copy()
        s0.pc = B.AND(s.pc, e)
        if s0.pc:
            self.setpos(s0, item[2] + 1)
            out.append(s0)
        s.pc = B.AND(s.pc, B.NOT(e))
        if not s.pc:
            return out
        s.store[("O", "$enter")] = TRUE
        self.loopstack.append(lid)
        try:
            ex, back = self.run_region(fr, blocks, h, [s], h)
        except Unsupported:
            raise why
        finally:
            self.loopstack.pop()
        exits += ex
        for b in back:
            if self.pos(b) <= p:
                raise why
            out.append(b)
        return out

    def group(self, fr, h, blocks, lid, s, p, item, exits):
        """apply a repeated group of pairs: generic element + loop rule"""
        _, wl, end, g, C, ix = item
        if known_empty(s.pc, C):
            self.setpos(s, end + 1)
            return [s]
        # a version/flag guard that does not depend on the element
        g2 = B.exists(g, lambda a: any(x is ix for x in walk(a)))
        out = []
        no = B.AND(s.pc, B.NOT(g2))
        if no:
            s0 = s.copy()
            s0.pc = no
            self.setpos(s0, end + 1)
            out.append(s0)
        yes = B.AND(s.pc, g2)
        if not yes:
            return out
        s = s.copy()
        s.pc = yes
        head = s.copy()
        for rnd in range(10):
            start = head.copy()
            self.setpos(start, p + 1)
            ex2 = []
            done = self.drive(fr, h, blocks, lid, {p + 1: [start]}, ex2, end)
            if not done:
                exits += ex2
                return out
            back = self.merge(done)
            new = None
            for loc in list(back.store):
                if loc[0] == "O" and loc[1].startswith("$"):
                    continue
                w = back.store[loc]
                v = head.store.get(loc)
                if v is None:
                    if loc[0] == "L":
                        continue
                    v = self.default(loc)
                if w is v:
                    continue
                x = self.widen(v, w, wl, loc, ())
                if x is not v:
                    if new is None:
                        new = head.copy()
                    new.store[loc] = x
            if new is None:
                break
            head = new
        else:
            raise Unsupported("repeated group does not stabilise in %s" % fr.body.name)
        exits += ex2
        after = s.copy()
        after.pc = yes
        live = cfg(fr.body).livein.get(h, set()) | cfg(fr.body).addr
        for loc, v in head.store.items():
            if loc in (POS,) or (loc[0] == "O" and loc[1].startswith("$")):
                continue
            if loc[0] == "L" and loc[1] == fr.ctx and loc[2] not in live:
                continue
            w = back.store.get(loc)
            e = s.store.get(loc)
            if e is None:
                e = self.default(loc) if loc[0] != "L" else UNINIT
            if w is None:
                continue
            x = self.summary(e, v, w, wl, loc, (), C, ix, back.pc)
            after.store[loc] = x
        self.setpos(after, end + 1)
        out.append(after)
        return out

    def summary(self, e, v, w, lid, loc, path, C, ix, pc):
        """value after the loop; e entry, v head (with loop symbols), w after one more element"""
        if v is w and not (v.op == "loop" and v.a[0] is lid):
            return e if e is v else v
        if v.op == "loop" and v.a[0] is lid:
            if w is v:
                return e
            if w.op == "pushed" and w.a[0] is v and not any(x is v for x in walk(w.a[1])):
                return mk("appmap", e, C, w.a[1], ix)
            if w.op == "minsert" and w.a[0] is v and not any(x is v for y in w.a[1:] for x in walk(y)):
                return mk("mapmap", e, C, w.a[1], w.a[2], ix)
            if not any(x.op == "loop" and x.a[0] is lid for x in walk(w)):
                return mk("lastof", e, C, w, ix)
            if w.op == "phi":
                # conditional append
                if all(x is v or (x.op == "pushed" and x.a[0] is v) for _, x in w.a[0]):
                    return mk("appsome", e, C, w, ix)
            return mk("accum", e, C, w, ix, v)
        if v.op == "agg" and w.op == "agg" and v.a[:2] == w.a[:2] and e.op == "agg" and e.a[:2] == v.a[:2]:
            return mk("agg", v.a[0], v.a[1], tuple(self.summary(a, b, c, lid, loc, path + (i,), C, ix, pc) for i, (a, b, c) in enumerate(zip(e.a[2], v.a[2], w.a[2]))))

        def parts(z):
            return (z.a[0], z.a[1], dict(z.a[2])) if z.op == "rec" else (z, None, {})

        be, ie, de = parts(e)
        bv, iv, dv = parts(v)
        bw, iw, dw = parts(w)
        if bv is bw and be is bv:
            ov = {}
            for i in sorted(set(de) | set(dv) | set(dw)):
                d = mk("fld", bv, i[1], i[2])
                ov[i] = self.summary(de.get(i, d), dv.get(i, d), dw.get(i, d), lid, loc, path + (i,), C, ix, pc)
            return mk("rec", bv, iv if iv is not None else (iw if iw is not None else ie), tuple(sorted(ov.items(), key=lambda z: z[0])))
        return mk("accum", e, C, w, ix, v)

    # ordinary loops of the reader: fixpoint, then the loop rule on what was appended
    def plain_loop(self, fr, h, sts, outer):
        s0 = self.merge(sts) if len(sts) > 1 else sts[0]
        entry = s0.copy()
        mark = len(self.events)
        exits = Interp.run_loop(self, fr, h, [s0], outer)
        lid = self.site(fr, h, "loop")
        info = self.loopinfo.get(lid)
        if not info:
            return exits
        src = None
        for e in self.events[mark:]:
            if e.kind == "iter" and e.loops and e.loops[-1] is lid:
                src = (e.d["src"], mk("it", e.d["site"]))
                break
        if src is None:
            return exits
        C, ix = src
        m = {}
        head, back = info["head"], info["back"]
        for loc, v in head.store.items():
            w = back.store.get(loc)
            if w is None:
                continue
            self.leaves(entry.store.get(loc), v, w, lid, C, ix, m)
        if not m:
            return exits
        out = []
        memo = {}
        for tg, s in exits:
            for loc, v in list(s.store.items()):
                if any(x in m for x in walk(v)):
                    s.store[loc] = subst_term(v, m, memo)
            out.append((tg, s))
        return out

    def leaves(self, e, v, w, lid, C, ix, m):
        if v is w:
            return
        if v.op == "loop" and v.a[0] is lid:
            if e is not None and w.op == "pushed" and w.a[0] is v and not any(x is v for x in walk(w.a[1])):
                m[v] = mk("appmap", e, C, w.a[1], ix)
            return
        if v.op == "agg" and w.op == "agg" and v.a[:2] == w.a[:2]:
            for i in range(len(v.a[2])):
                self.leaves(e.a[2][i] if e is not None and e.op == "agg" and e.a[:2] == v.a[:2] else None, v.a[2][i], w.a[2][i], lid, C, ix, m)
            return

        def parts(z):
            return (z.a[0], dict(z.a[2])) if z is not None and z.op == "rec" else (z, {})
        be, de = parts(e)
        bv, dv = parts(v)
        bw, dw = parts(w)
        if bv is bw:
            for i in set(dv) | set(dw):
                d = mk("fld", bv, i[1], i[2])
                self.leaves(de.get(i, d) if be is bv else None, dv.get(i, d), dw.get(i, d), lid, C, ix, m)


# ------------------------------------------------------------------ comparison
def paths_in(t):
    """field paths a value term depends on"""
    out = set()
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("fld", "sym"):
            s = fieldpath(x)
            if s:
                out.add(s)
                continue
        if x.op == "phi":
            stack += [v for _, v in x.a[0]]
            continue
        for y in x.a:
            if isinstance(y, T):
                stack.append(y)
            elif isinstance(y, tuple):
                stack += [z for z in y if isinstance(z, T)]
    return out


def fieldpath(t):
    if t.op == "sym":
        return t.a[0]
    if t.op == "fld":
        b = fieldpath(t.a[0])
        return None if b is None else b + "." + str(t.a[2])
    if t.op == "idx":
        b = fieldpath(t.a[0])
        return None if b is None else b + "[]"
    return None


def seq_source(c):
    """the collection whose length a sequence expression has, or None"""
    if c.op == "appmap" and c.a[0] is EMPTY:
        return seq_source(c.a[1])
    if c.op in ("i_enumerate", "drained", "i_cloned", "i_copied", "iter"):
        return seq_source(c.a[0])
    if c.op == "i_zip":
        a, b = seq_source(c.a[0]), seq_source(c.a[1])
        return a if a is b else c
    if c.op == "i_map":
        return seq_source(c.a[0])
    return c


class Cmp:
    def __init__(self, it, types=None):
        self.it = it
        self.p = it.p
        self.types = types or {}
        self.lens = {}
        self.res = []      # (path, status, detail)
        self.lossy = set()
        self.narrow = {}

    def out(self, path, status, detail=""):
        self.res.append((path, status, detail))

    def fields(self, adt, var=0):
        a = self.p.adts.get(adt)
        return [f[0] for f in a["variants"][var][2]] if a else None

    def fieldof(self, ov, adt, var, i):
        a = self.p.adts.get(adt)
        if adt in ("()", "{closure}"):
            r = self.it.get_field(ov, None, None, i)
        else:
            r = self.it.get_field(ov, adt, var if a and a["kind"] == "enum" else None, i)
        return r if r is not None else mk("bottom")

    def cond_known(self, g, atom):
        """True/False/None: value of atom under guard g"""
        i = B.aix.get(atom)
        if i is None:
            return None
        v = B._mk(i, 0, 1)
        if B.AND(g, v) == 0:
            return False
        if B.AND(g, B.NOT(v)) == 0:
            return True
        return None

    def given(self, g, ov, rv):
        """does guard g imply ov == rv (constants, defaults)"""
        rk = kint("d", rv.a[1]) if is_k(rv) and rv.a[0] in INTS else rv
        for a in (mk("eq", ov, rk), mk("eq", rk, ov)):
            if self.cond_known(g, a) is True:
                return True
        if rv is TRUE or rv is FALSE:
            k = self.cond_known(g, ov)
            if k is not None:
                return k == rv.a[1]
        if rv is EMPTY or rv is kstr("") or (rv.op == "k" and rv.a[1] == ""):
            for op in ("isempty", "is_empty"):
                if self.cond_known(g, mk(op, ov)) is True:
                    return True
            if self.cond_known(g, mk("eq", mk("len", ov), kint("d", 0))) is True:
                return True
        # a parent known to equal a constant aggregate
        x, chain = ov, []
        while x.op == "fld":
            chain.append((x.a[1], x.a[2]))
            x = x.a[0]
            for a in B.support(g):
                if a.op == "eq":
                    for u, c in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                        if u is x and c.op == "agg" and self.cond_known(g, a) is True:
                            y = c
                            for vn, fn in reversed(chain):
                                ad = self.p.adts.get(y.a[0]) if y.op == "agg" else None
                                if not ad:
                                    y = None
                                    break
                                names = [f[0] for f in ad["variants"][y.a[1]][2]]
                                y = y.a[2][names.index(fn)] if fn in names else None
                                if y is None:
                                    break
                            if y is rv or (y is not None and is_k(y) and is_k(rv) and fval(y) == fval(rv)):
                                return True
        return False

    def strip_cast(self, v):
        """numeric identity chains; narrowing to the width of the file's representation and back"""
        while v.op == "cast":
            y, mid, hit = v, [], None
            while y.op == "cast":
                if y.a[1] == v.a[2] and y is not v:
                    mid.append(y.a[2])
                    hit = y.a[0]
                    break
                if y is not v:
                    mid.append(y.a[2])
                y = y.a[0]
            if hit is None:
                return v
            for t in mid:
                if not self.it.widens(v.a[2], t):
                    self.lossy.add((v.a[2], t))
            v = hit
        return v

    def variant_known(self, ov, g):
        """variant index of ov under guard g or None"""
        if ov.op == "agg":
            return ov.a[1]
        d = mk("discr", ov)
        for a in B.support(g):
            if a.op == "eq" and a.a[0] is d and is_k(a.a[1]):
                k = self.cond_known(g, a)
                if k is True:
                    return a.a[1].a[1]
                if k is False and d in interp.TWO and a.a[1].a[1] == 0:
                    return 1
        return None

    def same(self, rv, ov, g, path):
        """records verdicts for every leaf"""
        n = len(self.lossy)
        before = set(self.lossy)
        self.lossy = set()
        rv = self.strip_cast(rv)
        for x in sorted(self.lossy, key=str):
            self.narrow[path] = x
        self.lossy |= before
        if rv is ov:
            return self.out(path, "ok")
        if rv.op == "phi":
            todo = [(B.AND(g, gi), v) for gi, v in rv.a[0]]
            todo = [(x, v) for x, v in todo if x]
            if all(v.op == "agg" and not v.a[2] for _, v in todo):
                return self.enum_phi(rv, todo, ov, g, path)
            for x, v in todo:
                self.same(v, ov, x, path)
            return
        if ov.op == "phi":
            for gi, v in ov.a[0]:
                x = B.AND(g, gi)
                if x:
                    self.same(rv, v, x, path)
            return
        if rv.op == "agg":
            ad = self.p.adts.get(rv.a[0])
            if self.given(g, ov, rv):
                return self.out(path, "ok", "default")
            if ad is not None and ad["kind"] == "enum" and len(ad["variants"]) == 1 and not rv.a[2]:
                return self.out(path, "ok", "only variant")
            if ad is None or ad["kind"] != "enum":
                names = self.fields(rv.a[0]) or [str(i) for i in range(len(rv.a[2]))]
                if not names:
                    return self.out(path, "ok", "unit")
                for i, n in enumerate(names):
                    self.same(rv.a[2][i], self.fieldof(ov, rv.a[0], None, i), g, path + "." + n if path else n)
                return
            k = self.variant_known(ov, g)
            if k is not None:
                dk = [i for i, v in enumerate(ad["variants"]) if int(v[1]) == k] if ov.op != "agg" else [k]
                if dk and dk[0] == rv.a[1]:
                    for i, f in enumerate(ad["variants"][rv.a[1]][2]):
                        self.same(rv.a[2][i], self.fieldof(ov, rv.a[0], rv.a[1], i), g, "%s<%s>.%s" % (path, ad["variants"][rv.a[1]][0], f[0]))
                    if not ad["variants"][rv.a[1]][2]:
                        self.out(path, "ok", "variant")
                    return
                return self.out(path, "wrong", "reads back as variant %s" % ad["variants"][rv.a[1]][0])
            return self.const_or_wrong(rv, ov, g, path)
        if rv.op == "rec":
            base, vi, ovr = rv.a
            n = 0
            for i, x in ovr:
                self.same(x, mk("fld", ov, i[1], i[2]), g, path + "." + i[2])
            if base is not ov:
                self.out(path, "wrong", "only partly restored from %s" % (",".join(sorted(paths_in(base))) or show(base)[:80]))
            return
        if rv.op == "mapmap" and rv.a[0] is EMPTY:
            from models import key_source
            _, C, K, V, ix = rv.a
            if key_source(K) is ov and V is mk("mapval", ov, K) or (
                    seq_source(C) is ov and K.op == "fld" and V.op == "fld" and K.a[0] is V.a[0] and K.a[0].op == "idx" and str(K.a[2]) == "0" and str(V.a[2]) == "1"):
                return self.out(path, "ok", "map")
            return self.out(path, "wrong", "map is rebuilt from %s" % ",".join(sorted(paths_in(rv))))
        if rv.op == "vec" and ov in self.lens:
            if len(rv.a[0]) != self.lens[ov]:
                if not rv.a[0]:
                    return self.out(path, "absent", "vec(())")
                return self.out(path, "wrong", "%d elements read back for %d written" % (len(rv.a[0]), self.lens[ov]))
            for k, x in enumerate(rv.a[0]):
                self.same(x, mk("idx", ov, kint("usize", k)), g, path + "[]")
            if not rv.a[0]:
                self.out(path, "ok", "empty")
            return
        if rv.op == "appmap" and rv.a[0] is EMPTY:
            src = seq_source(rv.a[1])
            if src is ov or (ov.op == "appmap" and seq_source(ov) is src):
                el = mk("idx", ov, rv.a[3]) if src is ov else subst_term(ov.a[2], {ov.a[3]: rv.a[3]})
                return self.same(rv.a[2], el, g, path + "[]")
            return self.out(path, "wrong", "list is rebuilt from %s" % (",".join(sorted(paths_in(rv))) or show(src)[:80]))
        if self.given(g, ov, rv):
            return self.out(path, "ok", "default")
        return self.const_or_wrong(rv, ov, g, path)

    def const_or_wrong(self, rv, ov, g, path):
        if rv.op in ("eq", "not") and self.bits(rv, ov, g, path):
            return self.out(path, "ok", "bit")
        x = rv
        while x.op == "cast":
            x = x.a[0]
        if x.op == "len":
            return self.out(path, "derived", "len(%s)" % show(x.a[0]))
        if is_const(rv):
            return self.out(path, "absent", show(rv)[:60])
        if rv.op == "call" and not rv.a[2]:
            return self.out(path, "absent", str(rv.a[0]).split("::")[-1] + "()")
        self.out(path, "wrong", "reads back from %s" % (",".join(sorted(paths_in(rv))) or show(rv)[:80]))

    def enum_phi(self, rv, todo, ov, g, path):
        """decoded field-less enum: every variant must be restored from its own number"""
        ad = self.p.adts.get(todo[0][1].a[0])
        if ad is None:
            return self.out(path, "wrong", show(rv)[:100])
        d = mk("discr", ov)
        bad = []
        hit = False
        for i, v in enumerate(ad["variants"]):
            k = int(v[1])

            def val(a, k=k):
                x = evnum(a, {d: k})
                return None if x is None else bool(x)
            got = set()
            for x, t in todo:
                y = B.restrict(x, val)
                if y:
                    got.add(t.a[1])
            if got == {i} or not got:
                hit = True
            elif i in got and len(got) == 1:
                hit = True
            else:
                bad.append((v[0], sorted(ad["variants"][j][0] for j in got)))
        consts = {t.a[1] for _, t in todo}
        if bad:
            if all(b[1] == bad[0][1] and len(b[1]) == 1 for b in bad) and len(bad) == len(ad["variants"]) - 1 and len(consts) == 1:
                return self.out(path, "absent", bad[0][1][0])
            return self.out(path, "wrong", "enum values do not survive: " + ", ".join("%s->%s" % (a, "/".join(b)) for a, b in bad[:6]))
        self.out(path, "ok", "enum")

    def num_of(self, t, d, k):
        return evnum(t, {d: k})

    # finite enumeration over the discriminants a decoded value depends on
    def discrs(self, t, depth=0):
        """{discr term: enum adt} below t, or None when something else is involved"""
        out = {}
        for x in walk(t):
            if x.op == "discr":
                ad = self.enum_of(x.a[0])
                if ad is None or len(ad["variants"]) > 64:
                    return None
                out[x] = [int(v[1]) for v in ad["variants"]]
        return out

    def enum_of(self, t):
        """enum type of a field term, by the declared type of the field"""
        ty = self.ty_of(t)
        if ty is not None and ty[0] == "adt":
            ad = self.p.adts.get(ty[1])
            if ad and ad["kind"] == "enum":
                return ad
        return None

    def ty_of(self, t):
        if t in self.types:
            return self.types[t]
        if t.op == "fld":
            b = self.ty_of(t.a[0])
            if b is None or b[0] != "adt":
                return None
            if b[1] == OPTION:
                return b[2] if len(b) > 2 else None
            ad = self.p.adts.get(b[1])
            if ad is None:
                return None
            for v in ad["variants"]:
                if t.a[1] in (None, v[0]) or len(ad["variants"]) == 1:
                    for f in v[2]:
                        if f[0] == t.a[2]:
                            return f[1]
            return None
        if t.op == "idx":
            b = self.ty_of(t.a[0])
            if b is not None and b[0] == "adt" and b[1] == "std::vec::Vec":
                return b[2]
        return None

    def bits(self, rv, ov, g, path):
        """rv a boolean decoded from packed bits: equal to ov under g for every value of the enums involved"""
        want = self.cond_known(g, ov)
        if want is None:
            return False
        ds = self.discrs(rv)
        if ds is None or len(ds) > 2:
            return False
        envs = [{}]
        for d, ks in ds.items():
            envs = [dict(e, **{}) | {d: k} for e in envs for k in ks]
        for e in envs:
            x = evnum(rv, e)
            if x is None or bool(x) != want:
                return False
        return True


def evnum(t, env):
    """value of a term under an assignment of integers to terms; None when unknown"""
    if t in env:
        return env[t]
    if is_k(t) and isinstance(t.a[1], (int, bool)):
        return int(t.a[1])
    if t.op == "cast":
        x = evnum(t.a[0], env)
        if x is None:
            return None
        return wrap(t.a[2], x) if t.a[2] in INTS else x
    if t.op in ("BitAnd", "BitOr", "BitXor", "Add", "Sub", "Mul", "Shl", "Shr", "eq", "lt"):
        x, y = evnum(t.a[0], env), evnum(t.a[1], env)
        if x is None or y is None:
            return None
        return {"BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Add": lambda: x + y, "Sub": lambda: x - y,
                "Mul": lambda: x * y, "Shl": lambda: x << (y & 127), "Shr": lambda: x >> (y & 127),
                "eq": lambda: int(x == y), "lt": lambda: int(x < y)}[t.op]()
    if t.op == "not":
        x = evnum(t.a[0], env)
        return None if x is None else int(not x)
    return None


def is_const(t):
    if t.op == "k":
        return True
    if t.op in ("agg",):
        return all(is_const(x) for x in t.a[2])
    if t.op == "vec":
        return all(is_const(x) for x in t.a[0])
    return t.op in ("kopaque", "kext")
