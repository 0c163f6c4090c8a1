"""Hash-consed value terms and canonical boolean guards (ROBDDs over atomic conditions)."""
import struct
import time

_tab = {}
CAP = [5000000, 4000000]


class T:
    __slots__ = ("op", "a", "id", "_m")
    _n = 0

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        T._n += 1
        if T._n > CAP[0]:
            CAP[0] += 1 << 20
            raise Bound("analysis bound in the number of terms")
        t.id = T._n
        t._m = None
        _tab[k] = t
    return t


def kint(ty, v):
    return mk("k", ty, v)


def kbool(b):
    return TRUE if b else FALSE


def kstr(s):
    return mk("k", "str", s)


def kchar(c):
    return mk("k", "char", c)


def kf64(x):
    return mk("k", "f64", struct.pack(">d", x))


def kf32(x):
    try:
        return mk("k", "f32", struct.pack(">f", x))
    except OverflowError:
        return mk("k", "f32", struct.pack(">f", float("inf") if x > 0 else float("-inf")))


TRUE = mk("k", "bool", True)
FALSE = mk("k", "bool", False)
UNIT = mk("agg", "()", 0, ())
UNINIT = mk("uninit")


def is_k(t):
    return t.op == "k"


def fval(t):
    """python value of a constant term"""
    if t.a[0] in ("f64", "f32"):
        return struct.unpack(">d" if t.a[0] == "f64" else ">f", t.a[1])[0]
    return t.a[1]


_budget = [0]


def show(t, d=0, limit=14):
    """printable form; bounded, because terms are DAGs"""
    if d == 0:
        _budget[0] = 400
    _budget[0] -= 1
    if _budget[0] < 0:
        return "…"
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > limit:
        return "…"
    if t.op == "k":
        v = fval(t)
        if t.a[0] == "str":
            return repr(v)
        if t.a[0] == "char":
            return "'%s'" % chr(v) if 32 <= v < 127 else "'\\u%x'" % v
        if t.a[0] == "bool":
            return "true" if v else "false"
        return str(v) + ("" if t.a[0] in ("i32", "f64") else t.a[0])
    if t.op == "sym":
        return str(t.a[0])
    if t.op == "fld":
        b, v, f = t.a
        return show(b, d + 1) + (("<%s>" % v) if v else "") + "." + str(f)
    if t.op == "agg":
        n, v, fs = t.a
        n = n.split("::")[-1]
        return "%s#%s{%s}" % (n, v, ",".join(show(x, d + 1) for x in fs))
    if t.op == "rec":
        b, v, o = t.a
        return show(b, d + 1) + "{" + ",".join("%s:=%s" % (i[2], show(x, d + 1)) for i, x in o) + "}"
    if t.op == "phi":
        return "phi[" + " | ".join("%s=>%s" % (B.show(g, 6, False), show(x, d + 1)) for g, x in t.a[0]) + "]"
    if t.op == "ref":
        return "&" + show_loc(t.a[0]) + "".join("." + str(s) for s in t.a[1])
    return t.op + "(" + ",".join(show(x, d + 1) for x in t.a) + ")"


def show_loc(l):
    if l[0] == "T":
        return show(l[1], 1)
    if l[0] == "O":
        return l[1]
    return "%s%s_%s" % l


def walk(t, seen=None):
    """all sub-terms (also through tuples)"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T):
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(x.a)


class Bound(Exception):
    """the analysis gave up"""


# no check goes on for longer than this: what is not decided by then stays undecided
LIMIT_AT = time.time() + 600


# ---------------------------------------------------------------- BDD guards
class BDD:
    def __init__(self):
        self.nodes = {0: None, 1: None}
        self.uniq = {}
        self.memo = {}
        self.atoms = []
        self.aix = {}
        self.n = 2
        self.deadline = None

    def var(self, atom):
        i = self.aix.get(atom)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(atom)
            self.aix[atom] = i
        return self._mk(i, 0, 1)

    def _mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = self.n
            self.n += 1
            if n > CAP[1]:
                CAP[1] += 1 << 20
                raise Bound("analysis bound in the path conditions")
            if not n & 0x3FFF and (time.time() > LIMIT_AT or self.deadline and time.time() > self.deadline):
                raise Bound("analysis bound in the path conditions")
            self.nodes[n] = k
            self.uniq[k] = n
        return n

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        vs = [self.nodes[x][0] for x in (f, g, h) if x > 1]
        v = min(vs)

        def co(x, b):
            if x < 2:
                return x
            n = self.nodes[x]
            if n[0] != v:
                return x
            return n[2] if b else n[1]

        r = self._mk(v, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.memo[k] = r
        return r

    def AND(self, a, b):
        return self.ite(a, b, 0)

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def restrict(self, f, fn, memo=None):
        """substitute atoms by fn(atom) -> True/False/None"""
        if memo is None:
            memo = {}
        if f < 2:
            return f
        r = memo.get(f)
        if r is not None:
            return r
        v, lo, hi = self.nodes[f]
        b = fn(self.atoms[v])
        if b is True:
            r = self.restrict(hi, fn, memo)
        elif b is False:
            r = self.restrict(lo, fn, memo)
        else:
            r = self.ite(self._mk(v, 0, 1), self.restrict(hi, fn, memo), self.restrict(lo, fn, memo))
        memo[f] = r
        return r

    def exists(self, f, pred, memo=None):
        if memo is None:
            memo = {}
        if f < 2:
            return f
        r = memo.get(f)
        if r is not None:
            return r
        v, lo, hi = self.nodes[f]
        l = self.exists(lo, pred, memo)
        h = self.exists(hi, pred, memo)
        if pred(self.atoms[v]):
            r = self.OR(l, h)
        else:
            r = self.ite(self._mk(v, 0, 1), h, l)
        memo[f] = r
        return r

    def support(self, f):
        out = set()
        seen = set()
        st = [f]
        while st:
            x = st.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            out.add(self.atoms[v])
            st += [lo, hi]
        return out

    def cubes(self, f, limit=64):
        """list of dict atom->bool covering f (paths)"""
        out = []

        def rec(x, cur):
            if len(out) >= limit:
                return
            if x == 0:
                return
            if x == 1:
                out.append(dict(cur))
                return
            v, lo, hi = self.nodes[x]
            a = self.atoms[v]
            cur.append((a, False))
            rec(lo, cur)
            cur.pop()
            cur.append((a, True))
            rec(hi, cur)
            cur.pop()

        rec(f, [])
        return out

    def implied(self, f):
        """literals true in every model: dict atom->bool (only direct must-literals)"""
        res = {}
        for a in self.support(f):
            i = self.aix[a]
            v = self._mk(i, 0, 1)
            if self.AND(f, v) == 0:
                res[a] = False
            elif self.AND(f, self.NOT(v)) == 0:
                res[a] = True
        return res

    def show(self, f, limit=8, top=True):
        if top:
            _budget[0] = 400
        if f == 1:
            return "1"
        if f == 0:
            return "0"
        cs = self.cubes(f, limit)
        return " ∨ ".join("∧".join(("" if b else "¬") + show(a, 8) for a, b in c.items()) for c in cs)


B = BDD()
