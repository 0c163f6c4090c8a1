"""Loads the MIR dump: bodies, types, callees, impls; CFG utilities."""
import json


class Body:
    pass


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        raw = d["types2"]
        self._rawty = raw
        self._ty = [None] * len(raw)
        self.types = [self.cty(i) for i in range(len(raw))]
        self.fns = d["fns"]
        for f in self.fns:
            f["args"] = tuple(self.types[a] for a in f["args"] if isinstance(a, int))
            if "rargs" in f:
                f["rargs"] = tuple(self.types[a] for a in f["rargs"] if isinstance(a, int))
            f["name"] = norm(f["name"])
            if "rname" in f:
                f["rname"] = norm(f["rname"])
        self.adts = {}
        for n, a in d["adts"].items():
            a["name"] = norm(n)
            for v in a["variants"]:
                for f in v[2]:
                    f[1] = self.types[f[1]] if f[1] is not None else None
            self.adts[norm(n)] = a
        self.bodies = {}
        for b in d["bodies"]:
            o = Body()
            o.__dict__.update(b)
            o.locals = [self.types[i] for i in b["locals"]]
            o.name = norm(o.name)
            if "self_ty" in b:
                o.self_ty = self.types[b["self_ty"]]
            else:
                o.self_ty = None
            o.trait = norm(b["trait"]) if b.get("trait") else None
            o.derived = b.get("derived", False)
            o.method = b.get("method", "")
            o.cfg = None
            self.bodies[o.key] = o
        self.impls = {}
        self.impl_list = d["impls"]
        for im in d["impls"]:
            self.impls.setdefault(norm(im["trait"]), []).append((self.types[im["self"]], im["methods"]))
        self.byname = {}
        for b in self.bodies.values():
            self.byname.setdefault(b.name, []).append(b)
        self.derived_ord = set()
        self.derived_eq = set()
        for b in self.bodies.values():
            if b.trait and b.derived and b.self_ty and b.self_ty[0] == "adt":
                if b.trait.endswith("PartialOrd"):
                    self.derived_ord.add(b.self_ty[1])
                if b.trait.endswith("PartialEq"):
                    self.derived_eq.add(b.self_ty[1])

    def cty(self, i):
        t = self._ty[i]
        if t is not None:
            return t
        r = self._rawty[i]
        k = r[0]
        # (recursive types only occur through adts by name, so this terminates)
        if k == "adt":
            t = ("adt", norm(r[1])) + tuple(self.cty(a) for a in r[2] if isinstance(a, int))
        elif k in ("ref", "ptr"):
            t = (k, self.cty(r[1]), r[2])
        elif k == "array":
            t = (k, self.cty(r[1]), r[2])
        elif k == "slice":
            t = (k, self.cty(r[1]))
        elif k == "tuple":
            t = ("tuple",) + tuple(self.cty(a) for a in r[1])
        elif k == "fndef":
            t = (k, r[1]) + tuple(self.cty(a) for a in r[2] if isinstance(a, int))
        elif k == "closure":
            t = (k, r[1])
        elif k == "dyn":
            t = (k, norm(r[1]))
        else:
            t = tuple(r)
        self._ty[i] = t
        return t

    def refs(self, b):
        """function records and closure bodies a body mentions (calls or takes the address of)"""
        r = b.__dict__.get("_refs")
        if r is None:
            r = []
            stack = [b.blocks]
            while stack:
                x = stack.pop()
                if isinstance(x, (list, tuple)):
                    if len(x) == 2 and x[0] == "fn" and isinstance(x[1], int):
                        r.append(self.fns[x[1]])
                    else:
                        stack.extend(x)
            b._refs = r
            b._clos = sorted({t[1] for l in b.locals for t in [l] if t[0] == "closure" and t[1] in self.bodies})
        return r

    def callees(self, b):
        """keys of the crate's bodies a body may call directly (all impls of an unresolved trait method)"""
        r = b.__dict__.get("_callees")
        if r is None:
            r = set()
            for f in self.refs(b):
                k = f.get("rkey") if f.get("rkey") in self.bodies else f["key"]
                if k in self.bodies:
                    r.add(k)
                if f.get("trait") and (f.get("rkey") not in self.bodies):
                    m = f["name"].rsplit("::", 1)[-1]
                    for _, ms in self.impls.get(norm(f["trait"]), []):
                        if ms.get(m) in self.bodies:
                            r.add(ms[m])
            r |= set(b._clos)
            b._callees = r
        return r

    def reach(self, roots):
        seen, stack = set(), list(roots)
        while stack:
            k = stack.pop()
            if k in seen or k not in self.bodies:
                continue
            seen.add(k)
            stack += self.callees(self.bodies[k])
        return seen

    def fn(self, name):
        """unique body by printed path"""
        l = self.byname.get(name, [])
        return l[0] if len(l) == 1 else None

    def find(self, suffix, pred=None):
        r = [b for b in self.bodies.values() if b.isfn and (b.name == suffix or b.name.endswith("::" + suffix))]
        if pred:
            r = [b for b in r if pred(b)]
        return r

    def variant(self, adt, idx):
        a = self.adts.get(adt)
        if a and idx < len(a["variants"]):
            return a["variants"][idx][0]
        return str(idx)

    def variant_ix(self, adt, name):
        for i, v in enumerate(self.adts[adt]["variants"]):
            if v[0] == name:
                return i
        raise KeyError((adt, name))

    def field_name(self, adt, v, i):
        a = self.adts.get(adt)
        if a and a["variants"] and i < len(a["variants"][v or 0][2]):
            return a["variants"][v or 0][2][i][0]
        return str(i)

    def discr(self, adt, idx):
        a = self.adts.get(adt)
        return int(a["variants"][idx][1])


def norm(n):
    return (
        n.replace("enum_primitive::Option", "std::option::Option")
        .replace("core::option::Option", "std::option::Option")
    )


# ------------------------------------------------------------------ CFG
class CFG:
    pass


def succs(term):
    k = term[0]
    if k == "goto":
        return [term[1]]
    if k == "sw":
        return [x[1] for x in term[3]] + [term[4]]
    if k == "drop":
        return [term[2]]
    if k == "call":
        return [term[4]] if term[4] is not None else []
    if k == "assert":
        return [term[5]]
    return []


def places_in_op(o):
    if o[0] in ("c", "m"):
        yield o[1]


def rv_places(r):
    k = r[0]
    if k == "use":
        yield from places_in_op(r[1])
    elif k in ("ref", "discr"):
        yield r[1]
    elif k == "repeat":
        yield from places_in_op(r[1])
    elif k == "cast":
        yield from places_in_op(r[2])
    elif k == "bin":
        yield from places_in_op(r[2])
        yield from places_in_op(r[3])
    elif k == "un":
        yield from places_in_op(r[2])
    elif k == "agg":
        for o in r[2]:
            yield from places_in_op(o)


def place_uses(p):
    yield p[0]
    for e in p[1]:
        if e != "*" and e[0] == "i":
            yield e[1]


def cfg(body):
    if body.cfg is not None:
        return body.cfg
    g = CFG()
    bl = body.blocks
    n = len(bl)
    g.succ = [succs(b[1]) if b else [] for b in bl]
    # ---- drop flags: bool locals whose only switch goes to a bare Drop
    flags = set()
    for b in bl:
        if b and b[1][0] == "sw" and b[1][1][0] in ("c", "m") and not b[1][1][1][1]:
            l = b[1][1][1][0]
            if body.locals[l] == ("bool",) and str(l) not in body.names:
                t = bl[b[1][4]]
                if t and t[1][0] == "drop" and not t[0]:
                    flags.add(l)
    # a drop flag only ever receives constants
    for b in bl:
        if not b:
            continue
        for x in b[0]:
            if isinstance(x[0], (list, tuple)) and x[0][0] in flags and not (x[1][0] == "use" and x[1][1][0] == "k"):
                flags.discard(x[0][0])
        if b[1][0] == "call":
            flags.discard(b[1][3][0])
    g.dropflags = flags
    # ---- rpo from 0
    seen = set()
    order = []
    st = [(0, iter(g.succ[0]))]
    seen.add(0)
    while st:
        u, it = st[-1]
        for v in it:
            if v not in seen:
                seen.add(v)
                st.append((v, iter(g.succ[v])))
                break
        else:
            order.append(u)
            st.pop()
    order.reverse()
    g.rpo = {b: i for i, b in enumerate(order)}
    g.order = order
    pred = {b: [] for b in order}
    for u in order:
        for v in g.succ[u]:
            pred[v].append(u)
    g.pred = pred
    # ---- dominators
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            nw = None
            for p in pred[b]:
                if p in idom:
                    if nw is None:
                        nw = p
                    else:
                        x, y = p, nw
                        while x != y:
                            while g.rpo[x] > g.rpo[y]:
                                x = idom[x]
                            while g.rpo[y] > g.rpo[x]:
                                y = idom[y]
                        nw = x
            if idom.get(b) != nw:
                idom[b] = nw
                ch = True
    g.idom = idom

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == order[0]:
                return False
            b = idom[b]

    g.dom = dom
    # ---- natural loops
    loops = {}
    for u in order:
        for v in g.succ[u]:
            if dom(v, u):
                s = loops.setdefault(v, {v})
                st2 = [u]
                while st2:
                    x = st2.pop()
                    if x in s:
                        continue
                    s.add(x)
                    st2 += pred[x]
            elif g.rpo[v] <= g.rpo[u]:
                g.irreducible = True
    g.loops = loops
    # ---- liveness of whole locals
    use = {}
    dfn = {}
    addr = set()
    for b in order:
        u, d = set(), set()
        sts, t = bl[b]
        for s in sts:
            for p in rv_places(s[1]):
                for l in place_uses(p):
                    if l not in d:
                        u.add(l)
            if s[1][0] == "ref" and "*" not in s[1][1][1]:
                addr.add(s[1][1][0])
            dst = s[0]
            if not dst[1] and s[1][0] != "setdiscr":
                d.add(dst[0])
            else:
                for l in place_uses(dst):
                    if l not in d:
                        u.add(l)
        ops = []
        if t[0] == "sw":
            ops = [t[1]]
        elif t[0] == "call":
            ops = [t[1]] + t[2]
        elif t[0] == "assert":
            ops = [t[1]] + t[4]
        for o in ops:
            for p in places_in_op(o):
                for l in place_uses(p):
                    if l not in d:
                        u.add(l)
        if t[0] == "call":
            dst = t[3]
            if not dst[1]:
                d.add(dst[0])
            else:
                for l in place_uses(dst):
                    if l not in d:
                        u.add(l)
        if t[0] == "ret" and 0 not in d:
            u.add(0)
        use[b], dfn[b] = u, d
    livein = {b: set(use[b]) for b in order}
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            o = set()
            for s in g.succ[b]:
                if s in livein:
                    o |= livein[s]
            nw = use[b] | (o - dfn[b])
            if nw != livein[b]:
                livein[b] = nw
                ch = True
    g.livein = livein
    g.addr = addr
    body.cfg = g
    return g
