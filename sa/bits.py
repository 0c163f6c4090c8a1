"""Bit-precise meaning of integer and boolean terms: every integer term becomes a list of BDDs, one per bit,
over the bits of the symbolic leaves; every condition becomes a BDD. Equality of two terms is then equality of BDDs."""
from interp import INTS
from terms import *


class NoBits(Exception):
    pass


class Bits:
    def __init__(self, ty):
        """ty(leaf term) -> integer type name, 'bool' or None"""
        self.ty = ty
        self.memo = {}
        self.gm = {}

    def width(self, n):
        if n not in INTS:
            raise NoBits("no bits for type %s" % n)
        return INTS[n][0]

    def signed(self, n):
        return n.startswith("i")

    def typ(self, t):
        if is_k(t):
            return t.a[0]
        if t.op == "cast":
            return t.a[2]
        if t.op in ("BitAnd", "BitOr", "BitXor", "Add", "Sub", "Mul", "Shl", "Shr"):
            x = self.typ(t.a[0])
            return x if x is not None or t.op in ("Shl", "Shr") else self.typ(t.a[1])
        if t.op in ("bnot", "ineg", "Not", "Neg", "neg"):
            return self.typ(t.a[0])
        if t.op == "phi":
            for g, x in t.a[0]:
                r = self.typ(x)
                if r:
                    return r
            return None
        return self.ty(t)

    def num(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._num(t)
        return r

    def _num(self, t):
        n = self.typ(t)
        w = self.width(n)
        if is_k(t):
            return [(int(t.a[1]) >> i) & 1 for i in range(w)]
        if t.op in ("BitAnd", "BitOr", "BitXor"):
            f = {"BitAnd": B.AND, "BitOr": B.OR, "BitXor": self.xor}[t.op]
            return [f(a, b) for a, b in zip(self.num(t.a[0]), self.num(t.a[1]))]
        if t.op in ("Add", "Sub"):
            a, b = self.num(t.a[0]), self.num(t.a[1])
            c = 0
            if t.op == "Sub":
                b = [B.NOT(x) for x in b]
                c = 1
            out = []
            for x, y in zip(a, b):
                out.append(self.xor(self.xor(x, y), c))
                c = B.OR(B.AND(x, y), B.AND(c, B.OR(x, y)))
            return out
        if t.op in ("Shl", "Shr"):
            if not is_k(t.a[1]):
                raise NoBits("shift by a variable")
            a, s = self.num(t.a[0]), t.a[1].a[1]
            if t.op == "Shl":
                return ([0] * s + a)[:w]
            return a[s:] + [a[-1] if self.signed(n) else 0] * min(s, w)
        if t.op == "cast":
            s = self.typ(t.a[0])
            if s == "bool":
                return [self.cond(t.a[0])] + [0] * (w - 1)
            a = self.num(t.a[0])
            return (a + [a[-1] if self.signed(s) else 0] * max(0, w - len(a)))[:w]
        if t.op in ("Not", "bnot"):
            return [B.NOT(x) for x in self.num(t.a[0])]
        if t.op == "Neg":
            c, out = 1, []
            for x in self.num(t.a[0]):
                x = B.NOT(x)
                out.append(self.xor(x, c))
                c = B.AND(x, c)
            return out
        if t.op == "phi":
            out = [0] * w
            for g, x in t.a[0]:
                gg = self.guard(g)
                out = [B.OR(o, B.AND(gg, b)) for o, b in zip(out, self.num(x))]
            return out
        return [B.var(mk("bit", t, i)) for i in range(w)]

    def xor(self, a, b):
        return B.ite(a, B.NOT(b), b)

    def cond(self, t):
        if t is TRUE:
            return 1
        if t is FALSE:
            return 0
        if t.op in ("not",):
            return B.NOT(self.cond(t.a[0]))
        if t.op == "band":
            return B.AND(self.cond(t.a[0]), self.cond(t.a[1]))
        if t.op == "bor":
            return B.OR(self.cond(t.a[0]), self.cond(t.a[1]))
        if t.op == "phi":
            r = 0
            for g, x in t.a[0]:
                r = B.OR(r, B.AND(self.guard(g), self.cond(x)))
            return r
        ts = [x for x in (self.typ(t.a[0]), self.typ(t.a[1])) if x in INTS] if t.op in ("eq", "lt") else []
        if ts:
            a, b = [self.num(kint(ts[0], x.a[1]) if is_k(x) else x) for x in t.a]
            if t.op == "eq":
                r = 1
                for x, y in zip(a, b):
                    r = B.AND(r, B.NOT(self.xor(x, y)))
                return r
            if self.signed(ts[0]):
                a, b = a[:-1] + [B.NOT(a[-1])], b[:-1] + [B.NOT(b[-1])]
            r = 0
            for x, y in zip(a, b):
                r = B.ite(self.xor(x, y), y, r)
            return r
        if t.op == "eq" and self.typ(t.a[0]) == "bool":
            return B.NOT(self.xor(self.cond(t.a[0]), self.cond(t.a[1])))
        return B.var(mk("bit", t, 0))

    def guard(self, g):
        if g < 2:
            return g
        r = self.gm.get(g)
        if r is None:
            v, lo, hi = B.nodes[g]
            r = self.gm[g] = B.ite(self.cond(B.atoms[v]), self.guard(hi), self.guard(lo))
        return r


def leaf_ty(p, root):
    """type of a field path over the symbolic item `self` of type root"""
    def f(t):
        x = full(t)
        if x is None:
            return None
        return x[1] if x[0] == "int" else ("bool" if x == ("bool",) else None)

    def full(t):
        if t.op == "sym":
            r = root.get(t.a[0]) if isinstance(root, dict) else (root if t.a[0] == "self" else None)
            return r
        if t.op == "fld":
            b = full(t.a[0])
            if b is None or b[0] != "adt" or b[1] not in p.adts:
                return None
            for v in p.adts[b[1]]["variants"]:
                if t.a[1] in ("", v[0]) or len(p.adts[b[1]]["variants"]) == 1:
                    for q in v[2]:
                        if q[0] == t.a[2]:
                            return q[1]
        return None
    return f
