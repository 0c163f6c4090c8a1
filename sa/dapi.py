"""The drawing's own operations (add, remove, clear, normalize, look up), as functions from state to state."""
from sections import *
from unroll import Unroll
import scen
from scen import num

SELF = mk("ref", ("O", "self"), ())
VEC = "std::vec::Vec"
HANDLE = "handle::Handle"


def setup(p):
    scen.Scen.prog = p


def dfields(p):
    return p.adts[DR]["variants"][0][2]


def lists(p):
    """{field: element type} of the drawing's lists"""
    return {f[0]: f[1][2][1] for f in dfields(p) if f[1][:2] == ("adt", VEC) and f[1][2][0] == "adt"}


def fnum(p, adt, name, vi=0):
    for k, f in enumerate(p.adts[adt]["variants"][vi][2]):
        if f[0] == name:
            return k
    return None


def setf(p, v, adt, name, x, vi=0):
    it = Interp(p)
    for i, n in enumerate(name.split(".")):
        pass
    parts = name.split(".")
    k = fnum(p, adt, parts[0], vi)
    if k is None:
        raise Unsupported("no field %s in %s" % (name, adt))
    if len(parts) > 1:
        t = p.adts[adt]["variants"][vi][2][k][1]
        x = setf(p, it.get_field(v, adt, None, k), t[1], ".".join(parts[1:]), x)
    return it.set_field(v, adt, None, k, x)


def getf(p, v, adt, name):
    it = Interp(p)
    for n in name.split("."):
        k = fnum(p, adt, n)
        if k is None:
            raise Unsupported("no field %s in %s" % (name, adt))
        v = it.get_field(v, adt, None, k)
        t = p.adts[adt]["variants"][0][2][k][1]
        adt = t[1] if t[0] == "adt" else None
    return v


def public(p, adt, pred):
    return [b for b in p.bodies.values() if b.isfn and not b.trait and b.self_ty == ("adt", adt) and b.vis == "pub" and pred(b)]


def run(p, b, args, drawing=None, cls=Unroll):
    it = cls(p)
    it.deadline = time.time() + 120
    st = State()
    st.store[("O", "self")] = drawing if drawing is not None else mk("sym", "self")
    it.events_off = True
    return it, it.run(b, args=[SELF] + args, st=st)


class After:
    """one case of the state after an operation"""
    def __init__(self, p, it, s, v, sc):
        self.p, self.it, self.s, self.v, self.sc = p, it, s, v, sc
        self.d = s.store[("O", "self")]

    def field(self, name):
        k = fnum(self.p, DR, name)
        return self.sc.red(self.it.get_field(self.d, DR, None, k))

    def ret(self):
        return self.sc.red(self.it.val(self.s, self.v))

    def get(self, v, adt, name):
        return self.sc.red(getf(self.p, v, adt, name))


def cases(p, it, res, fn, limit=4000):
    """fn(After) in every case"""
    for s, v in res:
        def one(sc, s=s, v=v):
            if not sc.guard(s.pc):
                return
            fn(After(p, it, s, v, sc))
        scen.explore(one, limit)


def chain(t):
    """(base list, [pushed elements])"""
    out = []
    while t.op == "pushed":
        out.append(t.a[1])
        t = t.a[0]
    return t, out[::-1]


def own_handle(p, adt):
    for n in ("handle", "common.handle"):
        if fnum(p, adt, n.split(".")[0]) is not None:
            return n
    return None


def diff(a, b, path=()):
    """places where two terms differ: [(path, a, b)]"""
    if a is b:
        return []
    if a.op == "agg" and b.op == "agg" and a.a[:2] == b.a[:2] and len(a.a[2]) == len(b.a[2]):
        return [z for k, (x, y) in enumerate(zip(a.a[2], b.a[2])) for z in diff(x, y, path + ((a.a[0], k),))]
    if a.op == "vec" and b.op == "vec" and len(a.a[0]) == len(b.a[0]):
        return [z for k, (x, y) in enumerate(zip(a.a[0], b.a[0])) for z in diff(x, y, path + (("[]", k),))]
    if a.op == "rec" or b.op == "rec":
        ba, da = (a.a[0], dict((i[2], x) for i, x in a.a[2])) if a.op == "rec" else (a, {})
        bb, db = (b.a[0], dict((i[2], x) for i, x in b.a[2])) if b.op == "rec" else (b, {})
        if ba is bb:
            out = []
            for k in sorted(set(da) | set(db)):
                x = da.get(k) or mk("fld", ba, "", k)
                y = db.get(k) or mk("fld", bb, "", k)
                out += diff(x, y, path + (("", k),))
            return out
    return [(path, a, b)]


def pname(p, path):
    out = []
    for a, k in path:
        if a == "[]":
            out.append("[%d]" % k)
        elif a == "":
            out.append(k)
        elif a == "()":
            out.append(str(k))
        else:
            ad = p.adts.get(a)
            if ad and ad["kind"] == "struct":
                out.append(ad["variants"][0][2][k][0])
            # payload of a variant: no name of its own
    return ".".join(out).replace(".[", "[")


def adders(p):
    """{list field: method adding an item of its element type}"""
    out = {}
    for f, t in lists(p).items():
        for b in public(p, DR, lambda b: b.argc == 2 and b.locals[2] == ("adt", t) and b.locals[1][0] == "ref" and b.locals[1][2]):
            out.setdefault(f, []).append(b)
    return out


AUTO = mk("agg", HANDLE, 0, (kint("u64", 2**64 - 1),))
EMPTYH = mk("agg", HANDLE, 0, (kint("u64", 0),))


def pair(a, h):
    return mk("agg", "()", 0, (a, h))


def items(p, f, t):
    """[(name, item term, {field path: 'fresh' | 'auto'})] items of one kind to add; the paths are the child handles"""
    if t in (ENT, OBJ):
        K = ET if t == ENT else OT
        out = []
        for vi, v in enumerate(p.adts[K]["variants"]):
            body = mk("sym", "body")
            flds = v[2]
            kids = {}
            if flds:
                bt = flds[0][1][1]
                for x in p.adts[bt]["variants"][0][2] if bt in p.adts and p.adts[bt]["variants"] else ():
                    if x[0] == "__seqend_handle":
                        kids["__seqend_handle"] = None
                    if x[0].endswith("_and_handles") and x[1][:2] == ("adt", VEC):
                        body = setf(p, body, bt, x[0], mk("vec", (pair(mk("sym", "child1"), AUTO), pair(mk("sym", "child2"), mk("sym", "handle2")), pair(mk("sym", "child3"), AUTO))))
                        kids[x[0]] = x[0]
                    if x[0] == "layer_names":
                        body = setf(p, body, bt, x[0], mk("vec", (mk("sym", "layer1"), mk("sym", "layer2"))))
            out.append((v[0], mk("agg", t, 0, (mk("sym", "common"), mk("agg", K, vi, (body,) if flds else ()))), kids))
        return out
    it = mk("sym", "item")
    if t == "block::Block":
        es = mk("vec", tuple(mk("agg", ENT, 0, (mk("sym", "common%d" % k), mk("sym", "specific%d" % k))) for k in (1, 2)))
        return [("Block", setf(p, it, t, "entities", es), {})]
    return [(t.split("::")[-1], it, {})]


def loaders(p):
    """{list field: (method reading that section, hooks(item) that make it read exactly the item)}"""
    PB = "code_pair_put_back::CodePairPutBack"
    out = {}
    EI = [b for b in p.bodies.values() if b.isfn and b.self_ty and b.self_ty[:2] == ("adt", "entity_iter::EntityIter") and b.argc == 2
          and b.locals[2][0] == "ref" and b.locals[2][1][:2] == ("adt", VEC)]
    OI = [b for b in p.bodies.values() if b.isfn and b.self_ty and b.self_ty[:2] == ("adt", "object_iter::ObjectIter") and b.trait and b.method == "next"]
    for b in p.bodies.values():
        if not (b.isfn and not b.trait and b.self_ty == ("adt", DR) and b.argc == 2 and b.locals[2][0] == "ref" and b.locals[2][1][:2] == ("adt", PB)):
            continue
        cal = set(p.callees(b))
        if len(EI) == 1 and EI[0].key in cal:
            def he(item, k=EI[0].key):
                def hook(it, st, fr, args, info):
                    st = st.copy()
                    loc, path = args[1].a
                    it.write(st, fr, loc, path, mk("vec", (item,)), None, event=False)
                    return [(st, mk("agg", "std::result::Result", 0, (UNIT,)))]
                return {k: hook}
            out["__entities"] = (b, he)
        elif len(OI) == 1 and any("object_iter::ObjectIter" in repr(t) for t in b.locals):
            def ho(item, k=OI[0].key):
                def hook(it, st, fr, args, info):
                    st = st.copy()
                    if ("O", "$given") in st.store:
                        return [(st, NONE)]
                    st.store[("O", "$given")] = TRUE
                    return [(st, some(mk("agg", "std::result::Result", 0, (item,))))]
                return {k: hook, "<itertools::PutBack<I> as std::iter::Iterator>::next": hook}
            out["__objects"] = (b, ho)
    return out


def load(p, b, hooks):
    it = Unroll(p, hooks=hooks)
    it.deadline = time.time() + 120
    st = State()
    st.store[("O", "self")] = mk("sym", "self")
    st.store[("O", "pairs")] = mk("sym", "pairs")
    return it, it.run(b, args=[SELF, mk("ref", ("O", "pairs"), ())], st=st)
