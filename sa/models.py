"""Transfer functions for the standard-library calls the crate makes."""
from terms import *
import interp as I

MODELS = {}
PREFIX = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def prefix(*names):
    def d(f):
        for n in names:
            PREFIX.append((n, f))
        return f
    return d


def pure(opname):
    def f(it, st, fr, args, info):
        return [(st, mk(opname, *[it.val(st, a) for a in args]))]
    return f


# ---------------------------------------------------------------- identity-like
@model(
    "<std::string::String as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::Deref>::deref",
    "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut", "std::string::String::as_str",
    "<std::borrow::Cow<'_, B> as std::ops::Deref>::deref", "std::vec::Vec::<T, A>::as_slice",
    "std::vec::Vec::<T, A>::as_mut_slice", "std::hint::must_use", "<std::boxed::Box<T, A> as std::ops::Deref>::deref",
    "<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut", "<I as std::iter::IntoIterator>::into_iter",
    "std::convert::identity", "std::iter::Iterator::by_ref", "std::boxed::box_assume_init_into_vec_unsafe",
    "<std::string::String as std::ops::DerefMut>::deref_mut", "<std::string::String as std::convert::AsRef<str>>::as_ref",
    "std::boxed::Box::<std::mem::MaybeUninit<T>, A>::assume_init", "<T as std::convert::From<T>>::from",
    "std::slice::<impl [T]>::into_vec",
)
def ident(it, st, fr, args, info):
    return [(st, args[0])]


@model(
    "<std::string::String as std::clone::Clone>::clone", "<std::vec::Vec<T, A> as std::clone::Clone>::clone",
    "<std::string::String as std::convert::From<&str>>::from", "<std::string::String as std::convert::From<&std::string::String>>::from",
    "<str as std::string::ToString>::to_string", "<std::option::Option<T> as std::clone::Clone>::clone",
    "std::borrow::Cow::<'_, B>::into_owned", "std::slice::<impl [T]>::to_vec", "<T as std::borrow::ToOwned>::to_owned",
    "std::str::<impl std::borrow::ToOwned for str>::to_owned", "std::clone::Clone::clone", "std::option::Option::<&T>::cloned",
    "std::option::Option::<&T>::copied", "<std::collections::HashMap<K, V, S, A> as std::clone::Clone>::clone",
    "std::boxed::Box::<T>::new", "std::string::String::into_boxed_str", "<str as std::borrow::ToOwned>::to_owned",
    "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned", "std::str::<impl str>::to_owned",
    "std::string::String::from_utf8_lossy_id",
)
def clone(it, st, fr, args, info):
    return [(st, it.val(st, args[0]))]


@prefix("std::clone::impls::<impl std::clone::Clone for", "<chrono::DateTime<Tz> as std::clone::Clone>",
        "<std::time::Duration as std::clone::Clone>", "<uuid::Uuid as std::clone::Clone>",
        "<std::borrow::Cow<'_, B> as std::clone::Clone>", "<std::boxed::Box<T, A> as std::clone::Clone>::clone")
def clone2(it, st, fr, args, info):
    return [(st, it.val(st, args[0]))]


@model("<T as std::string::ToString>::to_string")
def to_string(it, st, fr, args, info):
    t = info["atys"][0]
    while t[0] == "ref":
        t = t[1]
    v = it.val(st, args[0])
    if t[0] == "str" or t == ("adt", "std::string::String"):
        return [(st, v)]
    return [(st, mk("to_string", v))]


@model("<T as std::convert::Into<U>>::into")
def into(it, st, fr, args, info):
    t, u = info["atys"][0], info["dty"]
    if t[0] == "int" and u[0] in ("int", "float"):
        return [(st, it.cast(args[0], "IntToInt", t, u))]
    while t[0] == "ref":
        t = t[1]
    if t[0] == "str" or u == t:
        return [(st, it.val(st, args[0]))]
    # local From impl
    for sty, ms in it.p.impls.get("std::convert::From", []):
        if sty == u and "from" in ms:
            b = it.p.bodies.get(ms["from"])
            if b is not None and b.locals[1] == info["atys"][0]:
                return it.inline(st, fr, info["bb"], b, args, {}, info["span"])
    return [(st, mk("into", args[0]))]


@prefix("std::convert::num::<impl std::convert::From<")
def numfrom(it, st, fr, args, info):
    return [(st, it.cast(args[0], "IntToInt", info["atys"][0], info["dty"]))]


# ---------------------------------------------------------------- comparison
@model("core::str::traits::<impl std::cmp::PartialEq for str>::eq", "<std::string::String as std::cmp::PartialEq>::eq",
       "<std::string::String as std::cmp::PartialEq<&str>>::eq", "<std::string::String as std::cmp::PartialEq<str>>::eq",
       "<str as std::cmp::PartialEq<std::string::String>>::eq", "<&str as std::cmp::PartialEq<std::string::String>>::eq",
       "std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq",
       "<std::option::Option<T> as std::cmp::PartialEq>::eq", "<chrono::DateTime<Tz> as std::cmp::PartialEq<chrono::DateTime<Tz2>>>::eq",
       "<std::collections::HashMap<K, V, S, A> as std::cmp::PartialEq>::eq", "<uuid::Uuid as std::cmp::PartialEq>::eq",
       "<std::time::Duration as std::cmp::PartialEq>::eq")
def eq(it, st, fr, args, info):
    return [(st, it.cmp("Eq", it.val(st, args[0]), it.val(st, args[1]), True, st))]


@model("<std::string::String as std::cmp::PartialEq<&str>>::ne", "<std::string::String as std::cmp::PartialEq<str>>::ne",
       "<str as std::cmp::PartialEq>::ne", "<std::string::String as std::cmp::PartialEq>::ne")
def ne(it, st, fr, args, info):
    return [(st, it.cmp("Ne", it.val(st, args[0]), it.val(st, args[1]), True, st))]


@model("std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::eq", "std::cmp::PartialEq::eq",
       "std::cmp::impls::<impl std::cmp::PartialEq<&mut B> for &mut A>::eq")
def eq_ref(it, st, fr, args, info):
    t = base_ty(info["atys"][0])
    if t[0] == "adt" and not it.p.derived_eq.__contains__(t[1]) and t[1] in it.p.adts and it.p.adts[t[1]]["local"]:
        for sty, ms in it.p.impls.get("std::cmp::PartialEq", []):
            if sty == t and "eq" in ms:
                b = it.p.bodies.get(ms["eq"])
                if b is not None and b.key not in it.stack:
                    return it.inline(st, fr, info["bb"], b, [strip(it, st, args[0]), strip(it, st, args[1])], {}, info["span"])
    return [(st, it.val_eq(st, args[0], args[1], t))]


@model("std::cmp::PartialEq::ne", "std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::ne")
def ne_ref(it, st, fr, args, info):
    return [(s, it.bnot(r)) for s, r in eq_ref(it, st, fr, args, info)]


def base_ty(t):
    while t[0] in ("ref", "ptr"):
        t = t[1]
    return t


def strip(it, st, v):
    while v.op == "ref":
        w = it.read_path(st, v.a[0], v.a[1])
        if w.op != "ref":
            return v
        v = w
    return v


def order(op):
    def f(it, st, fr, args, info):
        t = base_ty(info["atys"][0])
        a, b = it.val(st, args[0]), it.val(st, args[1])
        if t[0] == "adt":
            ad = it.p.adts.get(t[1])
            if ad and ad["kind"] == "enum" and t[1] in it.p.derived_ord and all(not v[2] for v in ad["variants"]):
                # derived PartialOrd on a field-less enum orders by discriminant
                return [(st, it.cmp(op, it.discr(st, a, t), it.discr(st, b, t), True, st))]
            return [(st, mk("ord" + op, a, b))]
        return [(st, it.cmp(op, a, b, t[0] != "float", st))]
    return f


for m, o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    MODELS["std::cmp::PartialOrd::" + m] = order(o)
    for ty in ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "usize", "isize", "f64", "f32", "char"):
        MODELS["std::cmp::impls::<impl std::cmp::PartialOrd for %s>::%s" % (ty, m)] = order(o)


# ---------------------------------------------------------------- Result / Option plumbing
def enum_cases(it, st, v, adt, n):
    """[(guard, variant index, payload term or None)] for an Option/Result value"""
    if v.op == "agg":
        return [(1, v.a[1], v.a[2][0] if v.a[2] else None)]
    if v.op == "phi":
        out = []
        for g, x in v.a[0]:
            if B.AND(st.pc, g) == 0:
                continue
            for g2, i, p in enum_cases(it, st, x, adt, n):
                g3 = B.AND(g, g2)
                if g3:
                    out.append((g3, i, p))
        return out
    d = mk("discr", v)
    if d in st.known:
        i = st.known[d]
        return [(1, i, it.get_field(v, adt, i, 0))]
    a1 = B.var(mk("eq", d, kint("d", 1)))
    a0 = B.var(mk("eq", d, kint("d", 0)))
    out = []
    # same exclusive encoding as a two-way switch {0, 1}
    g0 = a0
    g1 = B.NOT(a0)
    names = it.p.adts[adt]["variants"]
    out.append((g0, 0, it.get_field(v, adt, 0, 0) if names[0][2] else None))
    out.append((g1, 1, it.get_field(v, adt, 1, 0) if names[1][2] else None))
    return out


def is_opt(t):
    return t[0] == "adt" and t[1] == I.OPTION


@model("<std::result::Result<T, E> as std::ops::Try>::branch", "<std::option::Option<T> as std::ops::Try>::branch")
def branch(it, st, fr, args, info):
    v = args[0]
    opt = is_opt(info["atys"][0])
    adt = I.OPTION if opt else I.RESULT
    res = {}
    for g, i, p in enum_cases(it, st, v, adt, 2):
        good = (i == 1) if opt else (i == 0)
        if good:
            x = mk("agg", I.CF, 0, (p if p is not None else UNIT,))
        else:
            x = mk("agg", I.CF, 1, (I.NONE if opt else I.err(p),))
        res.setdefault(good, []).append((g, x))
    out = []
    items = list(res.items())
    for n, (good, alts) in enumerate(items):
        g = 0
        for gg, _ in alts:
            g = B.OR(g, gg)
        pc = B.AND(st.pc, g)
        if not pc:
            continue
        s = st.copy() if len(items) > 1 else st
        s.pc = pc
        if v.op not in ("agg", "phi"):
            s.known[mk("discr", v)] = (1 if good else 0) if opt else (0 if good else 1)
        out.append((s, it.join_val(alts) if len(alts) > 1 else alts[0][1]))
    return out


@model("<std::result::Result<T, F> as std::ops::FromResidual<std::result::Result<!, E>>>::from_residual",
       "<std::result::Result<T, F> as std::ops::FromResidual<std::result::Result<std::convert::Infallible, E>>>::from_residual",
       "<std::option::Option<T> as std::ops::FromResidual<std::option::Option<!>>>::from_residual",
       "<std::option::Option<T> as std::ops::FromResidual>::from_residual",
       "<std::option::Option<T> as std::ops::FromResidual<std::option::Option<std::convert::Infallible>>>::from_residual")
def from_residual(it, st, fr, args, info):
    return [(st, args[0])]


def opt_map(it, st, fr, args, info, adt, on, other):
    """apply on[variant](payload)->[(state,val)] splitting states per variant"""
    v = args[0]
    if v.op == "ref":
        v = it.val(st, v)
    out = []
    cases = {}
    for g, i, p in enum_cases(it, st, v, adt, 2):
        cases.setdefault(i, []).append((g, p))
    for i, alts in cases.items():
        g = 0
        for gg, _ in alts:
            g = B.OR(g, gg)
        pc = B.AND(st.pc, g)
        if not pc:
            continue
        s = st.copy()
        s.pc = pc
        p = alts[0][1] if len(alts) == 1 else (it.join_val(alts) if alts[0][1] is not None else None)
        out += on[i](s, p)
    return out


def panic_ev(it, st, fr, info, what, **k):
    it.ev("panic", st, fr, info["span"], what=what, name=info["name"], **k)


def unwrap(adt, good):
    def f(it, st, fr, args, info):
        def bad(s, p):
            panic_ev(it, s, fr, info, "unwrap", val=it.val(st, args[0]))
            return []
        on = {good: lambda s, p: [(s, p)], 1 - good: bad}
        return opt_map(it, st, fr, args, info, adt, on, None)
    return f


for n in ("unwrap", "expect", "unwrap_unchecked"):
    MODELS["std::option::Option::<T>::" + n] = unwrap(I.OPTION, 1)
    MODELS["std::result::Result::<T, E>::" + n] = unwrap(I.RESULT, 0)


def simple(adt, f0, f1):
    def f(it, st, fr, args, info):
        on = {0: lambda s, p: f0(it, s, fr, args, info, p), 1: lambda s, p: f1(it, s, fr, args, info, p)}
        r = opt_map(it, st, fr, args, info, adt, on, None)
        return r
    return f


def merge2(it, res):
    """collapse a split into one state with a gated value"""
    if len(res) <= 1:
        return res
    pc = 0
    for s, _ in res:
        pc = B.OR(pc, s.pc)
    vs = [(I.simplify(s.pc, pc), r) for s, r in res]
    m = it.merge([s for s, _ in res])
    return [(m, it.join_val(vs))]


def gated(f):
    def g(it, st, fr, args, info):
        return merge2(it, f(it, st, fr, args, info))
    return g


O = "std::option::Option::<T>::"
R = "std::result::Result::<T, E>::"
K = lambda v: (lambda it, s, fr, a, i, p: [(s, v)])
P = lambda it, s, fr, a, i, p: [(s, p)]
MODELS[O + "is_some"] = gated(simple(I.OPTION, K(FALSE), K(TRUE)))
MODELS[O + "is_none"] = gated(simple(I.OPTION, K(TRUE), K(FALSE)))
MODELS[R + "is_ok"] = gated(simple(I.RESULT, K(TRUE), K(FALSE)))
MODELS[R + "is_err"] = gated(simple(I.RESULT, K(FALSE), K(TRUE)))
MODELS[O + "unwrap_or"] = gated(simple(I.OPTION, lambda it, s, fr, a, i, p: [(s, a[1])], P))
MODELS[R + "unwrap_or"] = gated(simple(I.RESULT, P, lambda it, s, fr, a, i, p: [(s, a[1])]))
MODELS[O + "ok_or"] = simple(I.OPTION, lambda it, s, fr, a, i, p: [(s, I.err(a[1]))], lambda it, s, fr, a, i, p: [(s, I.ok(p))])
MODELS[R + "ok"] = simple(I.RESULT, lambda it, s, fr, a, i, p: [(s, I.some(p))], lambda it, s, fr, a, i, p: [(s, I.NONE)])
MODELS[R + "err"] = simple(I.RESULT, lambda it, s, fr, a, i, p: [(s, I.NONE)], lambda it, s, fr, a, i, p: [(s, I.some(p))])
MODELS[R + "or"] = simple(I.RESULT, lambda it, s, fr, a, i, p: [(s, I.ok(p))], lambda it, s, fr, a, i, p: [(s, a[1])])
MODELS[O + "or"] = simple(I.OPTION, lambda it, s, fr, a, i, p: [(s, a[1])], lambda it, s, fr, a, i, p: [(s, I.some(p))])
MODELS[R + "and"] = simple(I.RESULT, lambda it, s, fr, a, i, p: [(s, a[1])], lambda it, s, fr, a, i, p: [(s, I.err(p))])


def transpose(it, st, fr, args, info):
    """Result<Option<T>> <-> Option<Result<T>>"""
    v = it.val(st, args[0]) if args[0].op == "ref" else args[0]
    res = is_opt(info["atys"][0])
    out = []
    a, b = (I.OPTION, I.RESULT) if res else (I.RESULT, I.OPTION)

    def fin(s, x):
        out.append((s, x))
    for g, i, p in enum_cases(it, st, v, a, 2):
        pc = B.AND(st.pc, g)
        if not pc:
            continue
        if not res and i == 1:
            s = st.copy()
            s.pc = pc
            fin(s, I.some(I.err(p)))
            continue
        if res and i == 0:
            s = st.copy()
            s.pc = pc
            fin(s, I.ok(I.NONE))
            continue
        for g2, j, q in enum_cases(it, st, p, b, 2):
            pc2 = B.AND(pc, g2)
            if not pc2:
                continue
            s = st.copy()
            s.pc = pc2
            if not res:
                fin(s, I.some(I.ok(q)) if j == 1 else I.NONE)
            else:
                fin(s, I.ok(I.some(q)) if j == 0 else I.err(q))
    return out


MODELS["std::result::Result::<std::option::Option<T>, E>::transpose"] = transpose
MODELS["std::option::Option::<std::result::Result<T, E>>::transpose"] = transpose


def capp(ix, wrapf=None):
    def f(it, s, fr, a, i, p):
        r = it.call_value(s, fr, ("m", i["bb"]), a[ix], [p] if p is not None else [], i["span"])
        return [(s2, wrapf(v) if wrapf else v) for s2, v in r]
    return f


def capp0(ix, wrapf=None):
    def f(it, s, fr, a, i, p):
        r = it.call_value(s, fr, ("m0", i["bb"]), a[ix], [], i["span"])
        return [(s2, wrapf(v) if wrapf else v) for s2, v in r]
    return f


MODELS[O + "map"] = simple(I.OPTION, K(I.NONE), capp(1, I.some))
MODELS[O + "and_then"] = simple(I.OPTION, K(I.NONE), capp(1))
MODELS[O + "filter"] = None
MODELS[R + "map"] = simple(I.RESULT, capp(1, I.ok), lambda it, s, fr, a, i, p: [(s, I.err(p))])
MODELS[R + "map_err"] = simple(I.RESULT, lambda it, s, fr, a, i, p: [(s, I.ok(p))], capp(1, I.err))
MODELS[R + "and_then"] = simple(I.RESULT, capp(1), lambda it, s, fr, a, i, p: [(s, I.err(p))])
MODELS[R + "or_else"] = simple(I.RESULT, lambda it, s, fr, a, i, p: [(s, I.ok(p))], capp(1))
MODELS[O + "ok_or_else"] = simple(I.OPTION, capp0(1, I.err), lambda it, s, fr, a, i, p: [(s, I.ok(p))])
MODELS[O + "unwrap_or_else"] = simple(I.OPTION, capp0(1), P)
MODELS[R + "unwrap_or_else"] = simple(I.RESULT, P, capp(1))
MODELS[O + "or_else"] = simple(I.OPTION, capp0(1), lambda it, s, fr, a, i, p: [(s, I.some(p))])
MODELS[O + "map_or"] = simple(I.OPTION, lambda it, s, fr, a, i, p: [(s, a[1])], capp(2))
MODELS[O + "map_or_else"] = simple(I.OPTION, capp0(1), capp(2))
MODELS[R + "map_or"] = simple(I.RESULT, capp(2), lambda it, s, fr, a, i, p: [(s, a[1])])
MODELS[O + "is_some_and"] = simple(I.OPTION, K(FALSE), capp(1))
MODELS[O + "is_none_or"] = simple(I.OPTION, K(TRUE), capp(1))
MODELS[R + "is_ok_and"] = simple(I.RESULT, capp(1), K(FALSE))
del MODELS[O + "filter"]


@model(O + "unwrap_or_default", R + "unwrap_or_default")
def unwrap_or_default(it, st, fr, args, info):
    d = default_of(it, info["dty"])
    if d is None:
        return None
    if is_opt(info["atys"][0]):
        return merge2(it, simple(I.OPTION, K(d), P)(it, st, fr, args, info))
    return merge2(it, simple(I.RESULT, P, K(d))(it, st, fr, args, info))


@model(O + "as_ref", O + "as_mut", O + "as_deref", "std::option::Option::<T>::as_deref_mut", R + "as_ref", R + "as_mut", O + "as_deref_mut")
def as_ref(it, st, fr, args, info):
    a = args[0]
    adt = I.OPTION if is_opt(base_ty(info["atys"][0])) else I.RESULT
    if a.op == "ref":
        loc, path = a.a
    else:
        loc, path = it.deref(st, a)
    v = it.read_path(st, loc, path)
    out = []
    byi = {}
    for g, i, p in enum_cases(it, st, v, adt, 2):
        byi[i] = B.OR(byi.get(i, 0), g)
    for i, g in byi.items():
        pc = B.AND(st.pc, g)
        if not pc:
            continue
        s = st.copy()
        s.pc = pc
        if adt == I.OPTION and i == 0:
            out.append((s, I.NONE))
        else:
            out.append((s, mk("agg", adt, i, (mk("ref", loc, path + (("f", i, adt, 0),)),))))
    return out


@model(O + "take")
def otake(it, st, fr, args, info):
    loc, path = it.deref(st, args[0])
    v = it.read_path(st, loc, path)
    it.write(st, fr, loc, path, I.NONE, info["span"])
    return [(st, v)]


@model(O + "insert", O + "replace", "std::mem::replace")
def oreplace(it, st, fr, args, info):
    loc, path = it.deref(st, args[0])
    v = it.read_path(st, loc, path)
    x = args[1] if info["name"] == "std::mem::replace" else I.some(args[1])
    it.write(st, fr, loc, path, x, info["span"])
    return [(st, v)]


@model("std::mem::take")
def mtake(it, st, fr, args, info):
    loc, path = it.deref(st, args[0])
    v = it.read_path(st, loc, path)
    d = default_of(it, info["dty"])
    it.write(st, fr, loc, path, d if d is not None else mk("default", str(info["dty"])), info["span"])
    return [(st, v)]


@model("std::mem::swap")
def mswap(it, st, fr, args, info):
    l1, p1 = it.deref(st, args[0])
    l2, p2 = it.deref(st, args[1])
    a, b = it.read_path(st, l1, p1), it.read_path(st, l2, p2)
    it.write(st, fr, l1, p1, b, info["span"])
    it.write(st, fr, l2, p2, a, info["span"])
    return [(st, UNIT)]


@model("std::mem::drop")
def mdrop(it, st, fr, args, info):
    return [(st, UNIT)]


# ---------------------------------------------------------------- defaults
def default_of(it, t):
    if t[0] == "int":
        return kint(t[1], 0)
    if t[0] == "float":
        return kf64(0.0) if t[1] == "f64" else mk("k", "f32", b"\0\0\0\0")
    if t[0] == "bool":
        return FALSE
    if t[0] == "char":
        return kchar(0)
    if t[0] == "tuple" and len(t) == 1:
        return UNIT
    if t[0] == "adt":
        if t[1] == "std::string::String":
            return kstr("")
        if t[1] in ("std::vec::Vec", "std::collections::HashMap", "std::collections::HashSet"):
            return mk("vec", ())
        if t[1] == I.OPTION:
            return I.NONE
        if t[1] == "std::time::Duration":
            return mk("duration0")
    return None


@model("std::default::Default::default")
def dflt(it, st, fr, args, info):
    d = default_of(it, info["dty"])
    if d is None:
        return None
    return [(st, d)]


@prefix("<f64 as std::default::Default>", "<i16 as std::default::Default>", "<i32 as std::default::Default>",
        "<bool as std::default::Default>", "<i64 as std::default::Default>", "<u32 as std::default::Default>",
        "<u8 as std::default::Default>", "<usize as std::default::Default>", "<std::string::String as std::default::Default>",
        "<std::vec::Vec<T> as std::default::Default>", "<std::option::Option<T> as std::default::Default>",
        "<std::time::Duration as std::default::Default>", "<std::collections::HashMap<K, V, S> as std::default::Default>")
def dflt2(it, st, fr, args, info):
    d = default_of(it, info["dty"])
    return [(st, d)] if d is not None else None


@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::collections::HashMap::<K, V>::new",
       "std::collections::HashSet::<T>::new", "std::vec::Vec::<T, A>::with_capacity")
def vec_new(it, st, fr, args, info):
    if args:
        it.ev("alloc", st, fr, info["span"], size=args[0], what="with_capacity")
    return [(st, mk("vec", ()))]


@model("std::string::String::new", "std::string::String::with_capacity")
def str_new(it, st, fr, args, info):
    return [(st, kstr(""))]


@model("std::boxed::Box::<T>::new_uninit", "std::mem::MaybeUninit::<T>::uninit")
def boxuninit(it, st, fr, args, info):
    loc = ("H", fr.ctx, info["bb"])
    st.store[loc] = UNINIT
    return [(st, mk("ref", loc, ()))]


@model("std::boxed::box_assume_init_into_vec_unsafe", "std::slice::<impl [T]>::into_vec", "std::boxed::Box::<std::mem::MaybeUninit<T>, A>::assume_init")
def into_vec(it, st, fr, args, info):
    return [(st, it.val(st, args[0]))]


# ---------------------------------------------------------------- Vec
def seq_event(it, st, fr, info, kind, loc, path, **k):
    it.ev(kind, st, fr, info["span"], loc=loc, path=path, **k)


@model("std::vec::Vec::<T, A>::push", "std::string::String::push", "std::collections::VecDeque::<T, A>::push_back")
def vpush(it, st, fr, args, info):
    loc, path = it.deref(st, args[0])
    old = it.read_path(st, loc, path)
    seq_event(it, st, fr, info, "push", loc, path, val=args[1], old=old)
    if old.op == "vec" and len(old.a[0]) < it.VECCAP:
        new = mk("vec", old.a[0] + (args[1],))
    elif old.op == "k" and old.a[0] == "str" and is_k(args[1]):
        new = kstr(old.a[1] + chr(args[1].a[1]))
    elif old.op == "mut":
        new = mk("mut", "push", old.a[1], old.a[2])
    else:
        new = mk("pushed", old, args[1])
        if depth_pushed(new) > it.PUSHCAP:
            new = mk("mut", "push", it.site(fr, info["bb"]), mk("many"))
    it.write(st, fr, loc, path, new, info["span"], event=False)
    return [(st, UNIT)]


def depth_pushed(t):
    n = 0
    while t.op == "pushed":
        n += 1
        t = t.a[0]
    return n


@model("std::string::String::push_str")
def spush(it, st, fr, args, info):
    loc, path = it.deref(st, args[0])
    old = it.read_path(st, loc, path)
    x = it.val(st, args[1])
    seq_event(it, st, fr, info, "push_str", loc, path, val=x, old=old)
    it.write(st, fr, loc, path, scat(old, x), info["span"], event=False)
    return [(st, UNIT)]


def scat(a, b):
    """concatenation of two strings"""
    if a is kstr(""):
        return b
    if b is kstr(""):
        return a
    if is_k(a) and is_k(b):
        return kstr(a.a[1] + b.a[1])
    return mk("concat", a, b)


def shead(s):
    """(constant prefix, function giving the string without its first n characters)"""
    if is_k(s) and isinstance(s.a[1], str):
        return s.a[1], lambda n: kstr(s.a[1][n:])
    if s.op == "concat":
        h, f = shead(s.a[0])
        if not is_k(s.a[0]):
            return h, lambda n: scat(f(n), s.a[1])
        h2, f2 = shead(s.a[1])
        return h + h2, lambda n: scat(f(n), s.a[1]) if n <= len(h) else f2(n - len(h))
    return "", None


def mutator(kind, ret=None):
    def f(it, st, fr, args, info):
        loc, path = it.deref(st, args[0])
        old = it.read_path(st, loc, path)
        vals = [it.val(st, a) for a in args[1:]]
        s = it.site(fr, info["bb"])
        seq_event(it, st, fr, info, kind, loc, path, args=vals, old=old)
        new = mk("vec", ()) if kind == "clear" else mk(kind, old, *vals)
        if kind == "clear" and old.op == "k":
            new = kstr("")
        if old.op == "vec":
            xs, a = old.a[0], vals[0] if vals else None
            if kind == "truncate" and is_k(a):
                new = mk("vec", xs[:a.a[1]])
            elif kind == "vinsert" and is_k(a) and a.a[1] <= len(xs):
                new = mk("vec", xs[:a.a[1]] + (vals[1],) + xs[a.a[1]:])
            elif kind == "reverse":
                new = mk("vec", xs[::-1])
            elif kind == "extend" and a.op == "vec":
                new = mk("vec", xs + a.a[0])
        it.write(st, fr, loc, path, new, info["span"], event=False)
        r = ret(it, st, fr, args, info, old, vals, s) if ret else UNIT
        return r if isinstance(r, list) else [(st, r)]
    return f


V = "std::vec::Vec::<T, A>::"
MODELS[V + "clear"] = mutator("clear")
MODELS["std::string::String::clear"] = mutator("clear")
MODELS["std::collections::HashMap::<K, V, S, A>::clear"] = mutator("clear")
MODELS[V + "truncate"] = mutator("truncate")
MODELS[V + "retain"] = None
del MODELS[V + "retain"]
MODELS[V + "insert"] = mutator("vinsert")
MODELS[V + "extend_from_slice"] = mutator("extend")
MODELS["std::slice::<impl [T]>::reverse"] = mutator("reverse")
MODELS["core::slice::<impl [T]>::reverse"] = mutator("reverse")
MODELS["<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend"] = mutator("extend")
MODELS["<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend"] = mutator("extend")
MODELS["std::collections::HashSet::<T, S, A>::insert"] = mutator("sinsert", lambda it, st, fr, a, i, old, vals, s: mk("not", mk("contains", old, vals[0])))
MODELS["std::collections::HashMap::<K, V, S, A>::insert"] = mutator("minsert", lambda it, st, fr, a, i, old, vals, s: mk("get", old, vals[0]))
_sremove = mutator("sremove", lambda it, st, fr, a, i, old, vals, s: mk("idx", old, vals[0]))


@model("std::string::String::remove")
def sremove(it, st, fr, args, info):
    loc, path = it.deref(st, args[0])
    old, n = it.read_path(st, loc, path), it.val(st, args[1])
    h, f = shead(old)
    if is_k(n) and n.a[1] == 0 and h:
        it.write(st, fr, loc, path, f(1), info["span"], event=False)
        return [(st, kstr(h[0]))]
    return _sremove(it, st, fr, args, info)


@model(V + "append")
def vappend(it, st, fr, args, info):
    loc, path = it.deref(st, args[0])
    l2, p2 = it.deref(st, args[1])
    old = it.read_path(st, loc, path)
    x = it.read_path(st, l2, p2)
    seq_event(it, st, fr, info, "extend", loc, path, args=[x], old=old)
    it.write(st, fr, loc, path, mk("extend", old, x), info["span"], event=False)
    it.write(st, fr, l2, p2, mk("vec", ()), info["span"], event=False)
    return [(st, UNIT)]


@model(V + "remove", V + "swap_remove")
def vremove(it, st, fr, args, info):
    loc, path = it.deref(st, args[0])
    old = it.read_path(st, loc, path)
    i = it.val(st, args[1])
    it.ev("mayp", st, fr, info["span"], what="remove", idx=i, len=it.length(st, old), name=info["name"])
    seq_event(it, st, fr, info, "remove", loc, path, args=[i], old=old)
    new = mk("removed" if not info["name"].endswith("swap_remove") else "swapremoved", old, i)
    if old.op == "vec" and is_k(i) and 0 <= i.a[1] < len(old.a[0]):
        xs = list(old.a[0])
        if new.op == "removed":
            del xs[i.a[1]]
        else:
            xs[i.a[1]] = xs[-1]
            xs.pop()
        new = mk("vec", tuple(xs))
    it.write(st, fr, loc, path, new, info["span"], event=False)
    return [(st, it.get_elem(old, i))]


def optional(it, st, payload, cond):
    """phi of Some(payload)/None gated by the atom `cond`"""
    g = it.bdd(st, cond)
    return it.phi([(g, I.some(payload)), (B.NOT(g), I.NONE)])


@model(V + "pop")
def vpop(it, st, fr, args, info):
    loc, path = it.deref(st, args[0])
    old = it.read_path(st, loc, path)
    s = it.site(fr, info["bb"])
    seq_event(it, st, fr, info, "pop", loc, path, args=[], old=old)
    if old.op == "vec":
        if not old.a[0]:
            return [(st, I.NONE)]
        it.write(st, fr, loc, path, mk("vec", old.a[0][:-1]), info["span"], event=False)
        return [(st, I.some(old.a[0][-1]))]
    if old.op == "pushed":
        it.write(st, fr, loc, path, old.a[0], info["span"], event=False)
        return [(st, I.some(old.a[1]))]
    it.write(st, fr, loc, path, mk("popped", old), info["span"], event=False)
    c = it.bnot(empty(it, st, old))
    return [(st, optional(it, st, mk("last", old), c))]


@model("std::string::String::pop")
def spop(it, st, fr, args, info):
    loc, path = it.deref(st, args[0])
    old = it.read_path(st, loc, path)
    seq_event(it, st, fr, info, "pop", loc, path, args=[], old=old)
    it.write(st, fr, loc, path, mk("popped", old), info["span"], event=False)
    return [(st, optional(it, st, mk("last", old), it.bnot(empty(it, st, old))))]


def empty(it, st, v):
    if v.op == "vec":
        return kbool(not v.a[0])
    if v.op == "k" and v.a[0] in ("str", "bytes"):
        return kbool(len(v.a[1]) == 0)
    if v.op in ("pushed",):
        return FALSE
    if v.op == "phi":
        return it.phi([(g, empty(it, st, x)) for g, x in v.a[0]])
    return it.cmp("Eq", it.length(st, v), kint("usize", 0), True, st)


@model(V + "is_empty", "std::string::String::is_empty", "core::str::<impl str>::is_empty", "core::slice::<impl [T]>::is_empty",
       "std::collections::HashMap::<K, V, S, A>::is_empty", "std::collections::HashSet::<T, S, A>::is_empty")
def isempty(it, st, fr, args, info):
    return [(st, empty(it, st, it.val(st, args[0])))]


@model(V + "len", "std::string::String::len", "core::str::<impl str>::len", "core::slice::<impl [T]>::len",
       "std::collections::HashMap::<K, V, S, A>::len")
def vlen(it, st, fr, args, info):
    return [(st, it.length(st, args[0]))]


@model("<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut",
       "core::slice::index::<impl std::ops::Index<I> for [T]>::index", "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut",
       "core::array::<impl std::ops::Index<I> for [T; N]>::index", "core::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut")
def vindex(it, st, fr, args, info):
    i = it.val(st, args[1])
    loc, path = it.deref(st, args[0])
    v = it.read_path(st, loc, path)
    ln = it.length(st, v)
    it.ev("mayp", st, fr, info["span"], what="index", idx=i, len=ln, name=info["name"], seq=v)
    if i.op == "agg" and "ops::Range" in i.a[0] or i.op in ("rec",):
        return [(st, mk("slice", v, i))]
    return [(st, mk("ref", loc, path + (("e", i),)))]


@model("core::str::traits::<impl std::ops::Index<I> for str>::index", "<std::string::String as std::ops::Index<I>>::index")
def sindex(it, st, fr, args, info):
    i = it.val(st, args[1])
    v = it.val(st, args[0])
    it.ev("mayp", st, fr, info["span"], what="strindex", idx=i, len=it.length(st, v), name=info["name"], seq=v)
    return [(st, mk("slice", v, i))]


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def sget(it, st, fr, args, info):
    i = it.val(st, args[1])
    loc, path = it.deref(st, args[0])
    v = it.read_path(st, loc, path)
    if i.op == "agg":
        c = mk("inrange", v, i)
        return [(st, optional(it, st, mk("slice", v, i), c))]
    c = it.cmp("Lt", i, it.length(st, v), True, st)
    return [(st, optional(it, st, mk("ref", loc, path + (("e", i),)), c))]


def lastfirst(which):
    def f(it, st, fr, args, info):
        loc, path = it.deref(st, args[0])
        v = it.read_path(st, loc, path)
        c = it.bnot(empty(it, st, v))
        i = mk("lastix", v) if which == "last" else kint("usize", 0)
        if which == "last" and v.op == "vec" and v.a[0]:
            i = kint("usize", len(v.a[0]) - 1)
        return [(st, optional(it, st, mk("ref", loc, path + (("e", i),)), c))]
    return f


MODELS["core::slice::<impl [T]>::last"] = lastfirst("last")
MODELS["core::slice::<impl [T]>::last_mut"] = lastfirst("last")
MODELS["core::slice::<impl [T]>::first"] = lastfirst("first")
MODELS["core::slice::<impl [T]>::first_mut"] = lastfirst("first")


# ---------------------------------------------------------------- iterators
def iterof(it, st, v):
    """value of an iterator source: keep references so that elements stay addressable"""
    return mk("iter", strip(it, st, v)) if v.op != "iter" else v


@model("<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "core::slice::<impl [T]>::iter",
       "core::slice::<impl [T]>::iter_mut", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "<&'a std::collections::HashSet<T, S, A> as std::iter::IntoIterator>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
       "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter",
       "<[T; N] as std::iter::IntoIterator>::into_iter", "core::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter",
       "core::array::<impl [T; N]>::iter",
       "<&'a std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter", "std::collections::HashMap::<K, V, S, A>::iter",
       "std::collections::HashMap::<K, V, S, A>::values_mut")
def mkiter(it, st, fr, args, info):
    a = args[0]
    if a.op in ("ref",):
        return [(st, mk("iter", strip(it, st, a)))]
    return [(st, mk("iter", a))]


def dom_op(name):
    def f(it, st, fr, args, info):
        return [(st, mk("iter", mk(name, it.val(st, args[0]))))]
    return f


MODELS["core::str::<impl str>::chars"] = dom_op("chars")
MODELS["core::str::<impl str>::bytes"] = dom_op("strbytes")
MODELS["core::str::<impl str>::char_indices"] = dom_op("char_indices")
MODELS["core::str::<impl str>::lines"] = dom_op("lines")
MODELS["std::collections::HashMap::<K, V, S, A>::keys"] = dom_op("keys")
MODELS["std::collections::HashMap::<K, V, S, A>::values"] = dom_op("values")


def adaptor(name):
    def f(it, st, fr, args, info):
        return [(st, mk(name, args[0], *[a for a in args[1:]]))]
    return f


IT = "std::iter::Iterator::"
for n in ("map", "filter", "filter_map", "enumerate", "zip", "skip", "take", "rev", "chain", "skip_while", "take_while", "peekable", "step_by", "cloned", "copied", "flat_map", "inspect"):
    MODELS[IT + n] = adaptor("i_" + n)
MODELS["itertools::Itertools::sorted_by"] = lambda it, st, fr, args, info: [(st, mk("iter", mk("sorted", seqval(it, st, args[0]))))]
MODELS["core::slice::<impl [T]>::chunks"] = lambda it, st, fr, args, info: [(st, mk("iter", mk("chunks", it.val(st, args[0]), it.val(st, args[1]))))]
MODELS["core::slice::<impl [T]>::chunks_exact"] = MODELS["core::slice::<impl [T]>::chunks"]
MODELS["core::slice::<impl [T]>::windows"] = lambda it, st, fr, args, info: [(st, mk("iter", mk("windows", it.val(st, args[0]), it.val(st, args[1]))))]


def seqval(it, st, v):
    """the sequence a (possibly adapted) iterator value ranges over"""
    v = it.val(st, v) if v.op == "ref" else v
    if v.op == "iter":
        return it.val(st, v.a[0])
    if v.op.startswith("i_"):
        return mk(v.op, *[seqval(it, st, x) if i == 0 else it.val(st, x) for i, x in enumerate(v.a)])
    if v.op == "agg" and "ops::Range" in v.a[0]:
        return v
    return v


def element(it, st, fr, info, v, site):
    """-> [(state, element term)] or None: an arbitrary element of iterator value v"""
    if v.op == "ref":
        v = it.val(st, v)
    if v.op == "iter":
        src = v.a[0]
        ix = mk("it", site)
        if src.op == "ref":
            sv = it.read_path(st, src.a[0], src.a[1])
            if sv.op in ("chars", "keys", "values", "chunks", "sorted", "slice"):
                return [(st, it.get_elem(sv, ix))]
            return [(st, mk("ref", src.a[0], src.a[1] + (("e", ix),)))]
        return [(st, it.get_elem(src, ix))]
    if v.op == "agg" and "ops::Range" in v.a[0]:
        lo, hi = v.a[2][0], v.a[2][1]
        return [(st, mk("rng", lo, hi, site))]
    if v.op in ("i_map", "i_inspect"):
        out = []
        for s, e in element(it, st, fr, info, v.a[0], site):
            out += it.call_value(s, fr, ("map", info["bb"]), v.a[1], [e], info["span"])
        return out
    if v.op == "i_filter":
        out = []
        for s, e in element(it, st, fr, info, v.a[0], site):
            for s2, c in it.call_value(s, fr, ("flt", info["bb"]), v.a[1], [e], info["span"]):
                g = it.bdd(s2, c)
                pc = B.AND(s2.pc, g)
                if pc:
                    s2.pc = pc
                    out.append((s2, e))
        return out
    if v.op == "i_filter_map":
        out = []
        for s, e in element(it, st, fr, info, v.a[0], site):
            for s2, o in it.call_value(s, fr, ("fm", info["bb"]), v.a[1], [e], info["span"]):
                for g, i, p in enum_cases(it, s2, o, I.OPTION, 2):
                    if i == 1:
                        pc = B.AND(s2.pc, g)
                        if pc:
                            s3 = s2.copy()
                            s3.pc = pc
                            out.append((s3, p))
        return out
    if v.op == "i_enumerate":
        out = []
        for s, e in element(it, st, fr, info, v.a[0], site):
            out.append((s, mk("agg", "()", 0, (mk("it", site), e))))
        return out
    if v.op == "i_zip":
        out = []
        for s, e in element(it, st, fr, info, v.a[0], site):
            for s2, e2 in element(it, s, fr, info, v.a[1] if v.a[1].op == "iter" or v.a[1].op.startswith("i_") or v.a[1].op == "agg" else mk("iter", v.a[1]), site):
                out.append((s2, mk("agg", "()", 0, (e, e2))))
        return out
    if v.op in ("i_skip", "i_take", "i_rev", "i_skip_while", "i_take_while", "i_peekable", "i_step_by"):
        out = []
        for s, e in element(it, st, fr, info, v.a[0], site):
            if v.op == "i_skip" and e.op == "ref" and e.a[1] and e.a[1][-1][0] == "e":
                st_, ix = e.a[1][-1]
                e = mk("ref", e.a[0], e.a[1][:-1] + (("e", mk("Add", ix, v.a[1])),))
            out.append((s, e))
        return out
    if v.op in ("i_cloned", "i_copied"):
        return [(s, it.val(s, e)) for s, e in element(it, st, fr, info, v.a[0], site)]
    if v.op == "i_chain":
        out = []
        for x in (v.a[0], v.a[1]):
            s = st.copy()
            out += element(it, s, fr, info, x, site)
        return out
    return [(st, mk("item", seqval(it, st, v), site))]


NEXTS = [
    "<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next",
    "<std::vec::IntoIter<T, A> as std::iter::Iterator>::next", "<std::str::Chars<'a> as std::iter::Iterator>::next",
    "<std::iter::Zip<A, B> as std::iter::Iterator>::next", "<std::iter::Map<I, F> as std::iter::Iterator>::next",
    "<std::iter::Enumerate<I> as std::iter::Iterator>::next", "<std::iter::Take<I> as std::iter::Iterator>::next",
    "std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next", "<std::slice::Chunks<'a, T> as std::iter::Iterator>::next",
    "<std::collections::hash_set::Iter<'a, K> as std::iter::Iterator>::next", "<std::iter::Skip<I> as std::iter::Iterator>::next",
    "<std::iter::Rev<I> as std::iter::Iterator>::next", "<std::iter::Filter<I, P> as std::iter::Iterator>::next",
    "<std::iter::FilterMap<B, I, F> as std::iter::Iterator>::next", "<std::iter::Chain<A, B> as std::iter::Iterator>::next",
    "std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next",
    "<std::array::IntoIter<T, N> as std::iter::Iterator>::next", "<std::iter::Cloned<I> as std::iter::Iterator>::next",
    "<std::iter::Copied<I> as std::iter::Iterator>::next", "<std::collections::hash_map::Keys<'a, K, V> as std::iter::Iterator>::next",
    "<std::collections::hash_map::Iter<'a, K, V> as std::iter::Iterator>::next", "<std::slice::ChunksExact<'a, T> as std::iter::Iterator>::next",
    "<std::iter::FilterMap<I, F> as std::iter::Iterator>::next", "<std::iter::Filter<I, F> as std::iter::Iterator>::next",
    "<std::str::Bytes<'_> as std::iter::Iterator>::next", "<std::iter::StepBy<I> as std::iter::Iterator>::next",
]


@model(*NEXTS)
def nxt(it, st, fr, args, info):
    loc, path = it.deref(st, args[0])
    v = it.read_path(st, loc, path)
    site = it.site(fr, info["bb"])
    # a constant-size literal collection is unrolled position by position outside loops
    src = seqval(it, st, v)
    cond = mk("hasnext", src, site)
    it.ev("iter", st, fr, info["span"], src=src, site=site, iter=v)
    g = it.bdd(st, cond)
    out = []
    s_no = st.copy()
    s_no.pc = B.AND(st.pc, B.NOT(g))
    st.pc = B.AND(st.pc, g)
    if st.pc:
        es = element(it, st, fr, info, v, site)
        if es is None:
            es = [(st, mk("item", src, site))]
        for s, e in es:
            out.append((s, I.some(e)))
    if s_no.pc:
        out.append((s_no, I.NONE))
    return out


def quant(name):
    """any / all / find / position / count / for_each / collect ..."""
    def f(it, st, fr, args, info):
        a = args[0]
        v = it.val(st, a) if a.op == "ref" else a
        site = it.site(fr, info["bb"])
        src = seqval(it, st, v)
        it.ev("iter", st, fr, info["span"], src=src, site=site, iter=v)
        pc = st.pc
        s1 = st.copy()
        g = it.bdd(st, mk("hasnext", src, site))
        s1.pc = B.AND(pc, g)
        if not s1.pc:
            s1.pc = pc
        care = s1.pc
        it.loopstack.append(site)
        es = element(it, s1, fr, info, v, site)
        if es is None:
            es = [(s1, mk("item", src, site))]
        res = []
        for s, e in es:
            if len(args) > 1 and name != "count":
                fa = args[-1]
                xs = [e] if name != "fold" else [mk("acc", site), e]
                if name in ("find", "position_"):
                    xs = [e]
                for s2, r in it.call_value(s, fr, ("q", info["bb"]), fa, xs, info["span"]):
                    res.append((s2, e, r))
            else:
                res.append((s, e, TRUE))
        it.loopstack.pop()
        sts = [s for s, _, _ in res]
        m = it.merge([st] + sts) if sts else st
        m.pc = pc
        m.known = dict(st.known)
        pred = it.phi([(I.simplify(s.pc, care), r) for s, _, r in res]) if res else FALSE
        el = it.phi([(I.simplify(s.pc, care), it.val(s, e)) for s, e, _ in res]) if res else UNINIT
        elr = it.phi([(I.simplify(s.pc, care), e) for s, e, _ in res]) if res else UNINIT
        if name == "any":
            return [(m, mk("any", src, pred))]
        if name == "all":
            return [(m, it.bnot(mk("any", src, it.bnot(pred))))]
        if name == "find":
            return [(m, optional(it, m, elr, mk("any", src, pred)))]
        if name == "position":
            return [(m, optional(it, m, mk("posof", src, pred), mk("any", src, pred)))]
        if name == "find_map":
            return [(m, mk("find_map", src, pred))]
        if name == "for_each":
            return [(m, UNIT)]
        if name == "count":
            x = src
            while x.op in ("i_map", "i_enumerate", "i_inspect", "i_rev", "i_cloned", "i_copied"):
                x = x.a[0]
            if x.op in ("fld", "sym", "vec", "idx"):
                return [(m, it.length(m, x))]
            return [(m, mk("count", src, el))]
        if name == "collect":
            base = v
            if base.op == "iter":
                return [(m, it.val(m, base.a[0]))]
            return [(m, mk("collect", src, el))]
        if name == "last":
            return [(m, optional(it, m, elr, it.bnot(it.cmp("Eq", mk("len", src), kint("usize", 0), True, st))))]
        if name in ("nth", "max", "min"):
            return [(m, mk(name, src, *[it.val(m, x) for x in args[1:]]))]
        return [(m, mk("q_" + name, src, pred))]
    return f


for n in ("any", "all", "find", "position", "for_each", "count", "collect", "find_map", "fold", "last", "sum", "max", "min"):
    MODELS[IT + n] = quant(n)
    MODELS["<std::slice::Iter<'a, T> as std::iter::Iterator>::" + n] = quant(n)
    MODELS["<std::slice::IterMut<'a, T> as std::iter::Iterator>::" + n] = quant(n)
    MODELS["<std::str::Chars<'a> as std::iter::Iterator>::" + n] = quant(n)
    MODELS["<std::vec::IntoIter<T, A> as std::iter::Iterator>::" + n] = quant(n)
MODELS[V + "retain"] = None


def retain(it, st, fr, args, info):
    loc, path = it.deref(st, args[0])
    old = it.read_path(st, loc, path)
    site = it.site(fr, info["bb"])
    s1 = st.copy()
    it.loopstack.append(site)
    e = mk("ref", loc, path + (("e", mk("it", site)),))
    res = it.call_value(s1, fr, ("q", info["bb"]), args[1], [e], info["span"])
    it.loopstack.pop()
    pred = it.phi([(s.pc, r) for s, r in res]) if res else FALSE
    pc = st.pc
    m = it.merge([st] + [s for s, _ in res])
    m.pc = pc
    seq_event(it, m, fr, info, "retain", loc, path, args=[pred], old=old)
    it.write(m, fr, loc, path, mk("retain", old, pred), info["span"], event=False)
    return [(m, UNIT)]


MODELS[V + "retain"] = retain


@model(V + "drain")
def drain(it, st, fr, args, info):
    loc, path = it.deref(st, args[0])
    old = it.read_path(st, loc, path)
    r = it.val(st, args[1])
    if r.op == "agg" and r.a[0].endswith("RangeFull"):
        seq_event(it, st, fr, info, "drain", loc, path, args=[r], old=old)
        it.write(st, fr, loc, path, mk("vec", ()), info["span"], event=False)
        return [(st, mk("iter", old))]
    it.ev("mayp", st, fr, info["span"], what="drain", idx=r, len=it.length(st, old), name=info["name"])
    seq_event(it, st, fr, info, "drain", loc, path, args=[r], old=old)
    it.write(st, fr, loc, path, mk("drained", old, r), info["span"], event=False)
    return [(st, mk("iter", mk("slice", old, r)))]


@model("std::slice::<impl [T]>::sort_by", "std::slice::<impl [T]>::sort_by_key", "std::slice::<impl [T]>::sort_unstable_by",
       "std::slice::<impl [T]>::sort", "std::slice::<impl [T]>::sort_unstable")
def sort_by(it, st, fr, args, info):
    loc, path = it.deref(st, args[0])
    old = it.read_path(st, loc, path)
    seq_event(it, st, fr, info, "sort", loc, path, args=[it.val(st, a) for a in args[1:]], old=old)
    it.write(st, fr, loc, path, mk("sorted", old), info["span"], event=False)
    return [(st, UNIT)]


# ---------------------------------------------------------------- strings
S = "core::str::<impl str>::"
for n, o in (("trim", "trim"), ("trim_start", "trim_start"), ("trim_end", "trim_end"), ("starts_with", "starts_with"),
             ("ends_with", "ends_with"), ("find", "find"), ("strip_prefix", "strip_prefix"), ("strip_suffix", "strip_suffix"),
             ("to_uppercase", "to_uppercase"), ("to_lowercase", "to_lowercase"), ("contains", "str_contains"),
             ("trim_end_matches", "trim_end_matches"), ("as_bytes", "as_bytes"), ("eq_ignore_ascii_case", "eq_ignore_ascii_case"),
             ("split", "split"), ("replace", "replace"), ("trim_start_matches", "trim_start_matches")):
    MODELS[S + n] = pure(o)


@model(S + "starts_with")
def starts_with(it, st, fr, args, info):
    s, x = it.val(st, args[0]), it.val(st, args[1])
    h, _ = shead(s)
    if is_k(x) and isinstance(x.a[1], (str, int)) and not isinstance(x.a[1], bool):
        c = x.a[1] if isinstance(x.a[1], str) else chr(x.a[1])
        if len(h) >= len(c) or is_k(s):
            return [(st, I.TRUE if h.startswith(c) else I.FALSE)]
    return [(st, mk("starts_with", s, x))]


MODELS["std::str::<impl str>::to_uppercase"] = pure("to_uppercase")
MODELS["std::str::<impl str>::to_lowercase"] = pure("to_lowercase")
MODELS["std::str::<impl str>::replace"] = pure("replace")
MODELS["std::string::String::as_bytes"] = pure("as_bytes")
MODELS["std::string::String::into_bytes"] = pure("as_bytes")
MODELS["std::char::from_u32"] = pure("from_u32")
MODELS["core::char::methods::<impl char>::from_u32"] = pure("from_u32")
def key_source(k):
    """the map whose keys k runs over, or None"""
    if k.op != "idx":
        return None
    c = k.a[0]
    while c.op in ("sorted", "iter", "i_cloned", "i_copied", "i_rev", "collect", "i_map") and c.a:
        if c.op == "i_map":
            return None
        c = c.a[0]
    return c.a[0] if c.op == "keys" else None


@model("std::collections::HashMap::<K, V, S, A>::get")
def mapget(it, st, fr, args, info):
    m, k = it.val(st, args[0]), it.val(st, args[1])
    if key_source(k) is m:
        return [(st, I.some(mk("mapval", m, k)))]
    return [(st, mk("get", m, k))]
MODELS["std::collections::HashMap::<K, V, S, A>::contains_key"] = pure("contains")
MODELS["std::collections::HashSet::<T, S, A>::contains"] = pure("contains")
MODELS["core::slice::<impl [T]>::contains"] = pure("contains")


@model("core::str::<impl str>::parse")
def parse(it, st, fr, args, info):
    t = info["gargs"][-1] if info["gargs"] else info["dty"]
    return [(st, mk("parse", str(t[1]) if len(t) > 1 else t[0], it.val(st, args[0])))]


@prefix("core::num::<impl u32>::from_str_radix", "core::num::<impl u64>::from_str_radix", "core::num::<impl u8>::from_str_radix", "core::num::<impl u16>::from_str_radix",
        "core::num::<impl i32>::from_str_radix")
def from_radix(it, st, fr, args, info):
    ty = info["name"].split("impl ")[1].split(">")[0]
    return [(st, mk("parse_radix", ty, it.val(st, args[0]), it.val(st, args[1])))]


@model("std::fmt::format")
def fmtformat(it, st, fr, args, info):
    v = it.val(st, args[0])
    x = plain_format(v)
    return [(st, x if x is not None else mk("format", v))]


def plain_format(v):
    """the string a format of plain `{}` of strings makes, or None"""
    if v.op != "fmtargs" or len(v.a) != 2 or v.a[1].op != "vec" or v.a[0].op != "k" or not isinstance(v.a[0].a[1], (tuple, bytes)):
        return None
    b, xs, out, i = bytes(v.a[0].a[1]), list(v.a[1].a[0]), kstr(""), 0
    while i < len(b) and b[i] != 0:
        if b[i] < 0x80:
            try:
                out = scat(out, kstr(b[i + 1:i + 1 + b[i]].decode()))
            except UnicodeDecodeError:
                return None
            i += 1 + b[i]
        elif b[i] == 0xC0 and xs and xs[0].op == "fmtarg" and xs[0].a[0] == "display_str":
            out = scat(out, xs.pop(0).a[1])
            i += 1
        else:
            return None
    return out if i == len(b) - 1 and not xs else None


@model("std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def fmtargs(it, st, fr, args, info):
    vs = [it.val(st, a) for a in args]

    def deep(v):
        if v.op == "vec":
            return mk("vec", tuple(deep(it.val(st, x)) for x in v.a[0]))
        if v.op in ("fmtarg",):
            return v
        return v
    return [(st, mk("fmtargs", *[deep(v) for v in vs]))]


@prefix("core::fmt::rt::Argument::<'_>::new_")
def fmtarg(it, st, fr, args, info):
    kind = info["name"].rsplit("new_", 1)[1]
    if kind == "display" and info["gargs"] and base_ty(info["gargs"][-1]) in (("str",), ("adt", "std::string::String")):
        kind = "display_str"
    return [(st, mk("fmtarg", kind, it.val(st, args[0])))]


# ---------------------------------------------------------------- panics
@prefix("std::rt::panic_fmt", "core::panicking", "std::rt::begin_panic", "std::panicking", "core::option::unwrap_failed", "core::option::expect_failed",
        "core::result::unwrap_failed", "core::panic")
def panic(it, st, fr, args, info):
    panic_ev(it, st, fr, info, "panic", args=[it.val(st, a) for a in args])
    return []


# ---------------------------------------------------------------- enum_primitive
@prefix("enum_primitive::FromPrimitive::from_")
def from_prim(it, st, fr, args, info):
    ty = info["gargs"][0] if info["gargs"] else None
    kind = info["decl"].rsplit("::", 1)[1]
    src = {"from_u8": "u8", "from_i8": "i8", "from_i16": "i16", "from_u16": "u16", "from_i32": "i32", "from_u32": "u32",
           "from_isize": "isize", "from_usize": "usize", "from_i64": "i64", "from_u64": "u64"}.get(kind)
    if ty is None:
        return None
    for sty, ms in it.p.impls.get("enum_primitive::FromPrimitive", []):
        if sty == ty:
            b = it.p.bodies.get(ms.get("from_i64"))
            if b is None:
                return None
            if src:
                v = it.cast(args[0], "IntToInt", ("int", src), ("int", "i64"))
            else:
                v = mk("cast", args[0], kind[5:], "i64")
            return it.inline(st, fr, info["bb"], b, [v], {}, info["span"])
    return None


@prefix("core::num::<impl i16>::abs", "core::num::<impl i32>::abs", "core::num::<impl i64>::abs")
def iabs(it, st, fr, args, info):
    v = it.val(st, args[0])
    it.ev("mayp", st, fr, info["span"], what="abs", idx=v, name=info["name"], ty=info["atys"][0][1])
    if is_k(v):
        return [(st, kint(v.a[0], abs(v.a[1])))]
    def f(x):
        while x.op in ("Neg", "abs"):
            x = x.a[0]
        return x if it.posint is not None and it.posint(x) else mk("abs", x)
    return [(st, it.phi([(g, f(x)) for g, x in v.a[0]]) if v.op == "phi" else f(v))]


for w in ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "usize", "isize"):
    for o in ("Add", "Sub", "Mul"):
        MODELS["core::num::<impl %s>::wrapping_%s" % (w, o.lower())] = (lambda o: lambda it, st, fr, args, info: [(st, it.arith(o, it.val(st, args[0]), it.val(st, args[1])))])(o)


@model("core::f64::<impl f64>::abs", "std::num::f64::<impl f64>::abs", "core::num::<impl f64>::abs")
def fabs(it, st, fr, args, info):
    return [(st, mk("fabs", args[0]))]
