"""Case analysis over a final abstract state: undecided base facts are split on demand."""
from interp import *
from terms import *

ELEM = mk("sym", "$elem")


def order(t):
    """equalities written one way round"""
    if isinstance(t, tuple):
        return tuple(order(x) for x in t)
    if not isinstance(t, T) or t.op in ("k", "sym", "site"):
        return t
    if t.op == "phi":
        return mk("phi", tuple(sorted(((g, order(x)) for g, x in t.a[0]), key=lambda z: z[1].id)))
    a = tuple(order(x) for x in t.a)
    if t.op == "eq" and not is_k(a[1]) and (is_k(a[0]) or any(x is ELEM for x in walk(a[1])) and not any(x is ELEM for x in walk(a[0]))):
        a = (a[1], a[0])
    return t if a == t.a else mk(t.op, *a)


class Need(Exception):
    def __init__(self, atom):
        self.atom = atom


class TooMany(Exception):
    pass


def explore(fn, limit=4000):
    """fn(Scen) for every consistent assignment of the base facts it asks for"""
    work = [{}]
    n = 0
    while work:
        n += 1
        if n > limit:
            raise TooMany()
        env = work.pop()
        sc = Scen(env)
        try:
            if not sc.consistent():
                continue
            fn(sc)
        except Need as e:
            for v in (False, True):
                d = dict(env)
                d[e.atom] = v
                work.append(d)


class Scen:
    def __init__(self, env):
        self.env = env
        self.memo = {}
        self.alias = {}
        for a, v in env.items():
            if v and a.op == "eq" and a.a[0].op != "discr":
                x, y = a.a
                x, y = self.root(x), self.root(y)
                if is_k(x):
                    x, y = y, x
                if x is not y:
                    self.alias[x] = y
        self.alias = {x: self.root(x) for x in self.alias}

    def root(self, x):
        while x in self.alias:
            x = self.alias[x]
        return x

    def consistent(self):
        seen = {}
        for a, v in self.env.items():
            b = self.canon(a) if a.op != "eq" else a
            if seen.setdefault(b, v) != v:
                return False
            if a.op == "eq" and a.a[0].op == "discr" and v:
                for c, w in self.env.items():
                    if w and c is not a and c.op == "eq" and c.a[0] is a.a[0] and c.a[1] is not a.a[1]:
                        return False
        # one term equals two different constants
        eqs = {}
        for a, v in self.env.items():
            if v and a.op == "eq" and is_k(a.a[1]):
                if eqs.setdefault(a.a[0], a.a[1]) is not a.a[1]:
                    return False
        return True

    def canon(self, t):
        return subst_term(t, self.alias) if self.alias else t

    def holds(self, a):
        """truth of an atom, splitting on a base fact when needed"""
        r = self.decide(a)
        if r is None:
            k = self.canon(a)
            for b in (a, k):
                if b in self.env:
                    return self.env[b]
            raise Need(k)
        return r

    def guard(self, g):
        while g > 1:
            v, lo, hi = B.nodes[g]
            g = hi if self.holds(B.atoms[v]) else lo
        return bool(g)

    def decide(self, a):
        if a.op == "k":
            return bool(a.a[1])
        if a.op == "not":
            return not self.holds(a.a[0])
        if a.op == "any":
            src = self.red(a.a[0])
            pred = a.a[1]
            ix = [x for x in walk(pred) if x.op == "idx" and x.a[1].op == "it"]
            pred = self.part(pred, ix)
            return self.some_elem(src, pred, ix)
        if a.op == "eq":
            x, y = self.red(a.a[0]), self.red(a.a[1])
            if x is y:
                return True
            if is_k(x) and is_k(y):
                return fval(x) == fval(y)
            if x.op == "agg" and y.op == "agg":
                if x.a[:2] != y.a[:2]:
                    return False
                return all(self.holds(mk("eq", p, q)) for p, q in zip(x.a[2], y.a[2]))
            if is_k(x) or (not is_k(y) and y.id < x.id):
                x, y = y, x
            if is_k(y) and isinstance(y.a[1], int) and not isinstance(y.a[1], bool):
                y = kint("d", y.a[1])
            k = mk("eq", x, y)
            if k in self.env:
                return self.env[k]
            cx, cy = self.canon(x), self.canon(y)
            if cx is cy:
                return True
            if is_k(cx) and is_k(cy):
                return fval(cx) == fval(cy)
            raise Need(k)
        if a.op == "contains":
            src = self.red(a.a[0])
            if src.op == "vec":
                return any(self.holds(mk("eq", x, a.a[1])) for x in src.a[0])
        if a.op in ("lt", "le"):
            x, y = self.red(a.a[0]), self.red(a.a[1])
            if is_k(x) and is_k(y):
                return fval(x) < fval(y) if a.op == "lt" else fval(x) <= fval(y)
        return None

    def part(self, t, ix):
        """phi with everything decided that does not depend on the element"""
        if t.op != "phi":
            return t

        def g(n):
            if n < 2:
                return n
            v, lo, hi = B.nodes[n]
            at = B.atoms[v]
            if not any(x in ix for x in walk(at)):
                return g(hi) if self.holds(at) else g(lo)
            return B.ite(B.var(at), g(hi), g(lo))
        alts = [(g(c), self.part(x, ix)) for c, x in t.a[0]]
        alts = [(c, x) for c, x in alts if c]
        if len(alts) == 1:
            return alts[0][1]
        return mk("phi", tuple(sorted(alts, key=lambda z: z[1].id)))

    def some_elem(self, src, pred, ix):
        if src.op == "vec":
            return any(self.truth(subst_term(pred, {i: x for i in ix})) for x in src.a[0])
        if src.op == "pushed":
            return self.truth(subst_term(pred, {i: src.a[1] for i in ix})) or self.some_elem(src.a[0], pred, ix)
        if src.op == "sorted":
            return self.some_elem(src.a[0], pred, ix)
        pe = subst_term(pred, {i: ELEM for i in ix})
        if pe is FALSE:
            return False
        k = order(self.canon(mk("any", src, order(pe))))
        if k in self.env:
            return self.env[k]
        raise Need(k)

    def truth(self, t):
        t = self.red(t)
        if t is TRUE or t is FALSE:
            return t is TRUE
        return self.holds(t)

    def red(self, t):
        """term with its case distinctions decided"""
        if isinstance(t, tuple):
            return tuple(self.red(x) for x in t)
        if not isinstance(t, T):
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        if t.op == "phi":
            r = None
            for g, x in t.a[0]:
                if self.guard(g):
                    r = self.red(x)
                    break
            if r is None:
                r = mk("bottom")
        elif t.op in ("k", "sym", "site"):
            r = t
        elif t.op == "agg":
            r = mk("agg", t.a[0], t.a[1], tuple(self.red(x) for x in t.a[2]))
        elif t.op == "fld":
            x = self.red(t.a[0])
            r = mk("fld", x, t.a[1], t.a[2])
            if x.op == "rec":
                for i, y in x.a[2]:
                    if i[2] == t.a[2]:
                        r = y
                        break
                else:
                    r = self.red(mk("fld", x.a[0], t.a[1], t.a[2]))
            elif x.op == "agg":
                r = self.aggfield(x, t) or r
        elif t.op in ("any", "eq", "lt", "not"):
            r = TRUE if self.holds(t) else FALSE
        elif t.op == "idx":
            x, i = self.red(t.a[0]), self.red(t.a[1])
            r = mk("idx", x, i)
            if x.op == "vec" and is_k(i) and i.a[1] < len(x.a[0]):
                r = x.a[0][i.a[1]]
            elif x.op == "pushed" and (i is mk("lastix", x) or i is mk("len", x.a[0])):
                r = x.a[1]
            elif x.op == "vec" and i.op == "lastix" and x.a[0]:
                r = x.a[0][-1]
        else:
            r = mk(t.op, *[self.red(x) for x in t.a])
        self.memo[t] = r
        return r

    prog = None

    def aggfield(self, x, t):
        ad = self.prog.adts.get(x.a[0]) if self.prog else None
        if ad:
            for k, f in enumerate(ad["variants"][x.a[1]][2]):
                if f[0] == t.a[2]:
                    return x.a[2][k]
        if t.a[2].isdigit() and int(t.a[2]) < len(x.a[2]):
            return x.a[2][int(t.a[2])]
        return None


def num(t, base):
    """t as base + k: k, or None"""
    if t is base:
        return 0
    if t.op == "Add" and is_k(t.a[1]):
        r = num(t.a[0], base)
        return None if r is None else r + t.a[1].a[1]
    if t.op == "agg" and len(t.a[2]) == 1:
        return num(t.a[2][0], base)
    return None
