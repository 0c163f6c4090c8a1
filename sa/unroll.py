"""Abstract interpretation over lists of known length: loops over them are followed element by element
(the elements stay symbolic), so that every way of writing the iteration gives the same terms."""
import interp
import models
from interp import *
from terms import *


class Unroll(Interp):
    LIMIT = 64

    def __init__(self, prog, opaque=None, hooks=None):
        super().__init__(prog, opaque, dict(hooks or {}))
        self.iters = ()
        self.models = dict(self.models)
        for n in models.NEXTS:
            self.models[n] = self.m_next
        for q in ("any", "all", "find", "position", "find_map", "for_each", "count", "collect", "fold", "last"):
            for pre in (models.IT, "<std::slice::Iter<'a, T> as std::iter::Iterator>::", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::",
                        "<std::str::Chars<'a> as std::iter::Iterator>::", "<std::vec::IntoIter<T, A> as std::iter::Iterator>::"):
                self.models[pre + q] = self.m_quant(q)

        self.models["std::collections::HashSet::<T, S, A>::insert"] = self.m_sinsert
        for pre in ("std::prelude::v1::", "std::result::Result::", "std::option::Option::", "core::result::Result::", "core::option::Option::"):
            self.models[pre + "Ok"] = lambda it, st, fr, args, info: [(st, ok(it.val(st, args[0]) if args[0].op != "ref" else args[0]))]
            self.models[pre + "Some"] = lambda it, st, fr, args, info: [(st, some(args[0]))]
            self.models[pre + "Err"] = lambda it, st, fr, args, info: [(st, mk("agg", RESULT, 1, (args[0],)))]
        self.models["itertools::put_back"] = self.m_putback_new
        self.models["itertools::PutBack::<I>::put_back"] = self.m_putback
        self.models["itertools::Itertools::chunk_by"] = self.m_chunk
        self.models["<&'a itertools::ChunkBy<K, I, F> as std::iter::IntoIterator>::into_iter"] = self.m_chunk_iter
        for n in ("<itertools::PutBack<I> as std::iter::Iterator>::next", "<itertools::Groups<'a, K, I, F> as std::iter::Iterator>::next", "<itertools::Group<'a, K, I, F> as std::iter::Iterator>::next"):
            self.models[n] = self.m_next
        for q in ("<std::string::String as std::cmp::Ord>::cmp", "std::cmp::Ord::cmp", "<str as std::cmp::Ord>::cmp", "<std::string::String as std::cmp::PartialOrd>::partial_cmp",
                  "std::cmp::PartialOrd::partial_cmp"):
            self.models[q] = lambda it, st, fr, args, info: [(st, mk("cmp", it.val(st, args[0]), it.val(st, args[1])))]
        for q in ("sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key"):
            self.models["std::slice::<impl [T]>::" + q] = self.m_sort
            self.models["core::slice::<impl [T]>::" + q] = self.m_sort

    def m_putback_new(self, it, st, fr, args, info):
        return [(st, mk("i_putback", args[0], mk("vec", ())))]

    def m_putback(self, it, st, fr, args, info):
        loc, path = self.deref(st, args[0])
        old = self.read_path(st, loc, path)
        if old.op != "i_putback":
            raise Bound("put_back on %s" % show(old)[:80])
        self.write(st, fr, loc, path, mk("i_putback", old.a[0], mk("vec", (self.val(st, args[1]),))), info["span"], event=False)
        return [(st, UNIT)]

    def m_chunk(self, it, st, fr, args, info):
        """chunk_by: the runs of neighbours with equal keys"""
        work = [(st, args[0], ())]
        out = []
        for _ in range(self.LIMIT):
            nxt = []
            for s, iv, acc in work:
                r = self.unext(s, fr, info, iv)
                if r is None:
                    raise Bound("chunk_by over %s" % show(iv)[:80])
                for s1, e, nv in r:
                    if e is None:
                        out.append((s1, mk("chunks", mk("vec", tuple(mk("agg", "()", 0, (k, mk("iter", mk("vec", xs)))) for k, xs in acc)))))
                        continue
                    loc = ("L", ("chunk", fr.ctx, info["bb"], len(acc)), 0)
                    s1.store[loc] = e
                    for s2, k in self.call_value(s1, fr, ("q", info["bb"]), args[1], [mk("ref", loc, ())], info["span"]):
                        k = self.val(s2, k)
                        g = self.bdd(s2, self._cmp("Eq", acc[-1][0], k, False, s2)) if acc else 0
                        for gg, same in ((g, True), (B.NOT(g), False)):
                            pc = B.AND(s2.pc, gg)
                            if pc:
                                s3 = s2.copy()
                                s3.pc = pc
                                nxt.append((s3, nv, acc[:-1] + ((acc[-1][0], acc[-1][1] + (e,)),) if same else acc + ((k, (e,)),)))
            work = nxt
            if not work:
                return out
        raise Bound("chunk_by in %s" % fr.body.name)

    def m_chunk_iter(self, it, st, fr, args, info):
        v = self.val(st, args[0])
        if v.op != "chunks":
            raise Bound("iteration over the groups of %s" % show(v)[:80])
        return [(st, mk("iter", v.a[0]))]

    def m_sort(self, it, st, fr, args, info):
        loc, path = self.deref(st, args[0])
        old = self.read_path(st, loc, path)
        s = st.copy()
        xs = []
        for n in ("$a", "$b")[:1 if "key" in info["name"] else 2]:
            s.store[("O", n)] = mk("sym", n)
            xs.append(mk("ref", ("O", n), ()))
        r = self.call_value(s, fr, ("sort", info["bb"]), args[1], xs, info["span"])
        c = self.val(r[0][0], r[0][1]) if len(r) == 1 else mk("sym", "$cmp")
        self.write(st, fr, loc, path, mk("sorted", old, c), info["span"], event=False)
        return [(st, UNIT)]

    def m_sinsert(self, it, st, fr, args, info):
        loc, path = self.deref(st, args[0])
        old, x = self.read_path(st, loc, path), self.val(st, args[1])
        if old.op == "vec" and is_k(x) and all(is_k(y) for y in old.a[0]):
            there = any(fval(y) == fval(x) for y in old.a[0])
            if not there:
                self.write(st, fr, loc, path, mk("vec", old.a[0] + (x,)), info["span"], event=False)
            return [(st, FALSE if there else TRUE)]
        return models.MODELS["std::collections::HashSet::<T, S, A>::insert"](it, st, fr, args, info)

    def site(self, fr, bb, tag=""):
        k = (fr.ctx, bb, tag, self.iters)
        n = self.sitemap.get(k)
        if n is None:
            n = mk("site", len(self.sitemap) + 1, fr.body.method or fr.body.name)
            self.sitemap[k] = n
        return n

    def join_val(self, parts):
        v0 = parts[0][1]
        if v0.op == "vec" and any(v is not v0 for _, v in parts) and all(v.op == "vec" and len(v.a[0]) == len(v0.a[0]) for _, v in parts):
            return mk("vec", tuple(self.join_val([(g, v.a[0][i]) for g, v in parts]) for i in range(len(v0.a[0]))))
        return super().join_val(parts)

    def run_loop(self, fr, h, sts, outer):
        blocks = cfg(fr.body).loops[h]
        exits = []
        heads = sts
        keep = self.iters
        for n in range(self.LIMIT):
            self.iters = keep + (n,)
            back = []
            for s in self.partition(fr, h, heads):
                ex, bk = self.run_region(fr, blocks, h, [s], h)
                exits += ex
                back += bk
            heads = back
            if not heads:
                break
        else:
            self.iters = keep
            raise Bound("loop in %s is not bounded by the lists' lengths" % fr.body.name)
        self.iters = keep
        return exits

    # ---- concrete iterators: [(state, element or None, iterator after)] or None when not concrete
    def unext(self, st, fr, info, v):
        if v.op == "ref":
            loc, path = v.a
            r = self.unext(st, fr, info, self.read_path(st, loc, path))
            if r is None:
                return None
            for s, e, nv in r:
                self.write(s, fr, loc, path, nv, None, event=False)
            return [(s, e, v) for s, e, nv in r]
        if v.op == "phi":
            out = []
            for g, x in v.a[0]:
                pc = B.AND(st.pc, g)
                if pc:
                    s = st.copy()
                    s.pc = pc
                    r = self.unext(s, fr, info, x)
                    if r is None:
                        return None
                    out += r
            return out
        if v.op == "iter":
            src = v.a[0]
            k = v.a[1].a[1] if len(v.a) > 1 else 0
            sv = self.read_path(st, *src.a) if src.op == "ref" else src
            if sv.op == "phi":
                out = []
                for g, x in sv.a[0]:
                    pc = B.AND(st.pc, g)
                    if not pc:
                        continue
                    s = st.copy()
                    s.pc = pc
                    r = self.seq_at(s, src, x, k)
                    if r is None:
                        return None
                    out.append((s, r[0], mk("iter", src, kint("usize", k + 1)) if r[0] is not None else v))
                return out
            r = self.seq_at(st, src, sv, k)
            if r is None:
                return None
            return [(st, r[0], mk("iter", src, kint("usize", k + 1)) if r[0] is not None else v)]
        if v.op == "agg" and v.a[0].endswith("ops::Range") and is_k(v.a[2][0]) and is_k(v.a[2][1]):
            lo, hi = v.a[2]
            if lo.a[1] < hi.a[1]:
                return [(st, lo, mk("agg", v.a[0], v.a[1], (kint(lo.a[0], lo.a[1] + 1), hi)))]
            return [(st, None, v)]
        if v.op in ("i_map", "i_inspect"):
            out = []
            r = self.unext(st, fr, info, v.a[0])
            if r is None:
                return None
            for s, e, nv in r:
                nn = mk(v.op, nv, v.a[1])
                if e is None:
                    out.append((s, None, nn))
                else:
                    for s2, x in self.call_value(s, fr, ("map", info["bb"]), v.a[1], [e], info["span"]):
                        out.append((s2, x if v.op == "i_map" else e, nn))
            return out
        if v.op in ("i_filter", "i_filter_map"):
            out = []
            work = [(st, v.a[0])]
            for _ in range(self.LIMIT):
                nxt = []
                for s, iv in work:
                    r = self.unext(s, fr, info, iv)
                    if r is None:
                        return None
                    for s1, e, nv in r:
                        if e is None:
                            out.append((s1, None, mk(v.op, nv, v.a[1])))
                            continue
                        for s2, c in self.call_value(s1, fr, ("flt", info["bb"]), v.a[1], [e], info["span"]):
                            if v.op == "i_filter":
                                g = self.bdd(s2, c)
                                for gg, keep in ((g, True), (B.NOT(g), False)):
                                    pc = B.AND(s2.pc, gg)
                                    if pc:
                                        s3 = s2.copy()
                                        s3.pc = pc
                                        (out.append((s3, e, mk(v.op, nv, v.a[1]))) if keep else nxt.append((s3, nv)))
                            else:
                                for g, i, pl in models.enum_cases(self, s2, c, OPTION, 2):
                                    pc = B.AND(s2.pc, g)
                                    if pc:
                                        s3 = s2.copy()
                                        s3.pc = pc
                                        (out.append((s3, pl, mk(v.op, nv, v.a[1]))) if i == 1 else nxt.append((s3, nv)))
                work = nxt
                if not work:
                    return out
            return None
        if v.op == "i_enumerate":
            k = v.a[1].a[1] if len(v.a) > 1 else 0
            r = self.unext(st, fr, info, v.a[0])
            if r is None:
                return None
            return [(s, None if e is None else mk("agg", "()", 0, (kint("usize", k), e)), mk("i_enumerate", nv, kint("usize", k + 1))) for s, e, nv in r]
        if v.op in ("i_cloned", "i_copied"):
            r = self.unext(st, fr, info, v.a[0])
            if r is None:
                return None
            return [(s, None if e is None else self.val(s, e), mk(v.op, nv)) for s, e, nv in r]
        if v.op == "i_zip":
            r = self.unext(st, fr, info, v.a[0])
            if r is None:
                return None
            out = []
            for s, e, nv in r:
                if e is None:
                    out.append((s, None, v))
                    continue
                o = v.a[1]
                if not (o.op == "iter" or o.op.startswith("i_") or o.op == "agg"):
                    o = mk("iter", o)
                r2 = self.unext(s, fr, info, o)
                if r2 is None:
                    return None
                for s2, e2, nv2 in r2:
                    out.append((s2, None if e2 is None else mk("agg", "()", 0, (e, e2)), mk("i_zip", nv, nv2)))
            return out
        if v.op == "i_chain":
            r = self.unext(st, fr, info, v.a[0])
            if r is None:
                return None
            out = []
            for s, e, nv in r:
                if e is not None:
                    out.append((s, e, mk("i_chain", nv, v.a[1])))
                else:
                    r2 = self.unext(s, fr, info, v.a[1])
                    if r2 is None:
                        return None
                    out += [(s2, e2, mk("i_chain", nv, nv2)) for s2, e2, nv2 in r2]
            return out
        if v.op == "i_putback":
            if v.a[1].a[0]:
                return [(st, v.a[1].a[0][0], mk("i_putback", v.a[0], mk("vec", ())))]
            r = self.unext(st, fr, info, v.a[0])
            return None if r is None else [(s, e, mk("i_putback", nv, v.a[1])) for s, e, nv in r]
        if v.op == "i_rev" and v.a[0].op == "iter":
            src = v.a[0].a[0]
            sv = self.read_path(st, *src.a) if src.op == "ref" else src
            k = v.a[1].a[1] if len(v.a) > 1 else 0
            if sv.op != "vec":
                return None
            n = len(sv.a[0]) - 1 - k
            if n < 0:
                return [(st, None, v)]
            return [(st, self.seq_at(st, src, sv, n)[0], mk("i_rev", v.a[0], kint("usize", k + 1)))]
        if v.op in ("i_skip_while", "i_take_while"):
            if len(v.a) > 2:            # past the first part
                if v.op == "i_take_while":
                    return [(st, None, v)]
                r = self.unext(st, fr, info, v.a[0])
                return None if r is None else [(s, e, mk(v.op, nv, v.a[1], TRUE)) for s, e, nv in r]
            out = []
            work = [(st, v.a[0])]
            for _ in range(self.LIMIT):
                nxt = []
                for s, iv in work:
                    r = self.unext(s, fr, info, iv)
                    if r is None:
                        return None
                    for s1, e, nv in r:
                        if e is None:
                            out.append((s1, None, mk(v.op, nv, v.a[1], TRUE)))
                            continue
                        for s2, c in self.call_value(s1, fr, ("flt", info["bb"]), v.a[1], [e], info["span"]):
                            g = self.bdd(s2, c)
                            for gg, yes in ((g, True), (B.NOT(g), False)):
                                pc = B.AND(s2.pc, gg)
                                if not pc:
                                    continue
                                s3 = s2.copy()
                                s3.pc = pc
                                if v.op == "i_take_while":
                                    out.append((s3, e, mk(v.op, nv, v.a[1])) if yes else (s3, None, mk(v.op, nv, v.a[1], TRUE)))
                                elif yes:
                                    nxt.append((s3, nv))
                                else:
                                    out.append((s3, e, mk(v.op, nv, v.a[1], TRUE)))
                work = nxt
                if not work:
                    return out
            return None
        if v.op in ("i_skip", "i_take") and is_k(v.a[1]):
            n = v.a[1].a[1]
            if v.op == "i_take":
                if n == 0:
                    return [(st, None, v)]
                r = self.unext(st, fr, info, v.a[0])
                return None if r is None else [(s, e, mk("i_take", nv, kint("usize", n - 1))) for s, e, nv in r]
            work = [(st, v.a[0])]
            out = []
            for _ in range(n):
                nw = []
                for s, iv in work:
                    r = self.unext(s, fr, info, iv)
                    if r is None:
                        return None
                    for s1, e, nv in r:
                        (out.append((s1, None, mk("i_skip", nv, kint("usize", 0)))) if e is None else nw.append((s1, nv)))
                work = nw
            for s, iv in work:
                r = self.unext(s, fr, info, iv)
                if r is None:
                    return None
                out += [(s1, e, mk("i_skip", nv, kint("usize", 0))) for s1, e, nv in r]
            return out
        return None

    def seq_at(self, st, src, sv, k):
        """(element or None,) at position k, or None when the length is not known"""
        if sv.op == "chars" and is_k(sv.a[0]):
            s = fval(sv.a[0])
            return (kchar(s[k]) if k < len(s) else None,)
        if sv.op != "vec":
            return None
        if k >= len(sv.a[0]):
            return (None,)
        if src.op == "ref":
            return (mk("ref", src.a[0], src.a[1] + (("e", kint("usize", k)),)),)
        return (sv.a[0][k],)

    def m_next(self, it, st, fr, args, info):
        r = self.unext(st.copy(), fr, info, args[0])
        if r is None:
            return models.nxt(it, st, fr, args, info)
        return [(s, NONE if e is None else some(e)) for s, e, _ in r]

    def m_quant(self, name):
        plain = models.quant(name)

        def f(it, st, fr, args, info):
            base = st.copy()
            ne = len(self.events)
            work = [(st.copy(), args[0], (kint("usize", 0) if name in ("position", "count") else mk("vec", ()) if name == "collect" else args[1] if name == "fold" else NONE))]
            out = []
            for _ in range(self.LIMIT):
                nxt = []
                for s, iv, acc in work:
                    r = self.unext(s, fr, info, iv)
                    if r is None:
                        del self.events[ne:]
                        return plain(it, base, fr, args, info)
                    for s1, e, nv in r:
                        if e is None:
                            end = {"any": FALSE, "all": TRUE, "find": NONE, "position": NONE, "find_map": NONE, "for_each": UNIT}.get(name, acc)
                            out.append((s1, end))
                            continue
                        if name == "count":
                            nxt.append((s1, nv, kint("usize", acc.a[1] + 1)))
                            continue
                        if name == "last":
                            nxt.append((s1, nv, some(e)))
                            continue
                        if name == "collect":
                            nxt.append((s1, nv, mk("vec", acc.a[0] + (e,))))
                            continue
                        fa = args[-1]
                        for s2, c in self.call_value(s1, fr, ("q", info["bb"]), fa, [acc, e] if name == "fold" else [e], info["span"]):
                            if name == "for_each":
                                nxt.append((s2, nv, acc))
                            elif name == "fold":
                                nxt.append((s2, nv, c))
                            elif name == "find_map":
                                for g, i, pl in models.enum_cases(self, s2, c, OPTION, 2):
                                    pc = B.AND(s2.pc, g)
                                    if pc:
                                        s3 = s2.copy()
                                        s3.pc = pc
                                        (out.append((s3, some(pl))) if i == 1 else nxt.append((s3, nv, acc)))
                            else:
                                g = self.bdd(s2, c)
                                if name == "all":
                                    g = B.NOT(g)
                                for gg, hit in ((g, True), (B.NOT(g), False)):
                                    pc = B.AND(s2.pc, gg)
                                    if pc:
                                        s3 = s2.copy()
                                        s3.pc = pc
                                        if hit:
                                            out.append((s3, {"any": TRUE, "all": FALSE, "find": some(e), "position": some(acc)}[name]))
                                        else:
                                            nxt.append((s3, nv, kint("usize", acc.a[1] + 1) if name == "position" else acc))
                work = nxt
                if not work:
                    if name == "collect" and not (info["dty"][0] == "adt" and info["dty"][1] == "std::vec::Vec"):
                        del self.events[ne:]
                        return plain(it, base, fr, args, info)
                    return out
            raise Bound("iteration in %s" % fr.body.name)
        return f
