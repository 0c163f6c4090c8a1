"""Error discipline: no Err produced while reading or writing is dropped."""
import report
from terms import *
from interp import Interp, OPTION, RESULT, TWO
from par import pmap

SMALL = 25
CUTS = {"<code_pair_put_back::CodePairPutBack as std::iter::Iterator>::next"}
# error types that never come from the data or the device
EXEMPT_ERR = {"std::fmt::Error"}
# documented fallbacks, confirmed by reading: (callee that fails) -> reason
FALLBACK = {
    "uuid::parser::<impl uuid::Uuid>::parse_str": "a malformed UUID reads as the nil UUID (the crate's own tests require it)",
    "enums::AcadVersion::from": "an unknown version string in an object reads as R12",
    "std::string::String::from_utf8@code_pair_iter::": "text of a binary file that is not UTF-8 is taken byte by byte (files of other programs hold code page text)",
    "parse_radix@code_pair_value::": "an escape with bad hex digits is not an input error; the text is kept or replaced",
}


def fallback(fn, callee):
    return callee in FALLBACK or any("@" in k and callee == k.split("@")[0] and fn.startswith(k.split("@")[1]) for k in FALLBACK)



def result_kind(t):
    """'R' for Result, 'O' for Option<Result>, None otherwise"""
    if t[0] != "adt":
        return None
    if t[1] == RESULT:
        e = t[3] if len(t) > 3 else None
        if e and e[0] == "adt" and e[1] in EXEMPT_ERR:
            return None
        return "R"
    if t[1] == OPTION and len(t) > 2 and result_kind(t[2]) == "R":
        return "O"
    return None


def result_terms(v):
    """the result terms a value passed on as a whole stems from"""
    out = [v]
    if v.op == "phi":
        return [y for _, x in v.a[0] for y in result_terms(x)]
    if v.op == "fld" and v.a[1] == "Some":
        out += result_terms(v.a[0])
    return out


def leaves(r, k, g=1):
    """opaque results inside a value of kind k, with their guards"""
    if r.op == "phi":
        return [y for h, x in r.a[0] for y in leaves(x, k, B.AND(g, h))]
    if r.op == "agg":
        if r.a[0] == OPTION and r.a[1] == 1:
            return leaves(r.a[2][0], "R", g)
        return []
    if r.op in ("rec", "uninit", "bottom"):
        return []
    return [(r, k, g)]


def is_err(r, kind):
    """guard: the result term r carries an Err"""
    if kind == "R":
        return B.NOT(B.var(mk("eq", mk("discr", r), kint("d", 0))))
    p = mk("fld", r, "Some", "0")
    return B.AND(B.NOT(B.var(mk("eq", mk("discr", r), kint("d", 0)))), B.NOT(B.var(mk("eq", mk("discr", p), kint("d", 0)))))


def carries_err(ret, r, kind, pc):
    """guard under which the returned value is an error"""
    if ret.op == "agg" and ret.a[0] == RESULT:
        if ret.a[1] == 1:
            return 1
        x = ret.a[2][0] if ret.a[2] else None
        return 0
    if ret.op == "agg" and ret.a[0] == OPTION:
        return carries_err(ret.a[2][0], r, kind, pc) if ret.a[1] == 1 else 0
    if ret.op == "phi":
        g = 0
        for gg, x in ret.a[0]:
            g = B.OR(g, B.AND(gg, carries_err(x, r, kind, pc)))
        return g
    if ret is r:
        return 1
    if ret.op in ("call", "callv", "fld", "last"):
        return B.NOT(B.var(mk("eq", mk("discr", ret), kint("d", 0))))
    return 0


def fallible(b):
    """some call in the body gives a Result (what a callee expanded in place drops is found in the callee)"""
    return any(blk and blk[1] and blk[1][0] == "call" and (blk[1][3][1] or result_kind(b.locals[blk[1][3][0]])) for blk in b.blocks)


def analyse(prog, key, opaque):
    b = prog.bodies[key]
    it = Interp(prog, opaque=opaque)
    it.maxsteps = 3_000_000
    sites = {}

    def on_result(it, st, fr, r, dty, span, fop):
        k = result_kind(dty)
        if k is None or (r.op == "call" and str(r.a[0]).endswith("::put_back")):
            return
        for r, k, g in leaves(r, k):
            sites[r] = (k, span, fr.body.name, it.trace(fr.ctx))
            st.gset("pend", st.ghost.get("pend", frozenset()) | {(r, B.AND(g, st.pc))})

    def on_call(it, st, fr, args, info):
        # a result handed back to its stream is met again by the next read
        if not info["name"].endswith("::put_back"):
            return
        given = {(x, st.pc) for a in args[1:] for x in result_terms(a)}
        st.gset("done", st.ghost.get("done", frozenset()) | given)

    it.on_result = on_result
    it.on_call = on_call
    res = it.run(b)
    n = 0
    bad = []

    def judge(pc, ghost, ret, what):
        nonlocal n
        for r, called in ghost.get("pend", ()):
            k, span, fn, tr = sites[r]
            n += 1
            g = B.AND(B.AND(pc, called), is_err(r, k))
            for r2, dg in ghost.get("done", ()):
                if r2 is r:
                    g = B.AND(g, B.NOT(dg))
            if g == 0:
                continue
            if ret is not None:
                g = B.AND(g, B.NOT(carries_err(ret, r, k, pc)))
                if g == 0:
                    continue
            callee = r.a[0] if r.op in ("call",) else r.op
            if fallback(fn, str(callee)):
                continue
            bad.append((fn, str(callee), span, what, B.show(g, 2)[:300], tr))

    for s, ret in res:
        judge(s.pc, s.ghost, ret, "return")
    for lid, li in it.loopinfo.items():
        base = li["head"].ghost.get("pend", frozenset())
        for s in li["backs"]:
            judge(s.pc, {"pend": s.ghost.get("pend", frozenset()) - base, "done": s.ghost.get("done", frozenset())}, None, "next iteration of a loop")
    return {"n": n, "bad": bad, "sites": len(sites), "analysed": list(it.analysed), "sample": [
        (v[2], str(r.a[0]) if r.op == "call" else r.op) for r, v in list(sites.items())[:2]]}


def run(prog, rep):
    rep.rule = ("for every function and every call in it that returns Result (or Option<Result>): on no path on which the call produced Err "
                "does the function return a non-error value or start another loop iteration (flow analysis on MIR with small callees expanded)")
    opaque = lambda b: len(b.blocks) > SMALL or b.name in CUTS
    ks = [b.key for b in prog.bodies.values() if b.isfn and not b.derived]
    rep.count("functions", len(ks))
    ks = sorted((k for k in ks if fallible(prog.bodies[k])), key=lambda k: -len(prog.bodies[k].blocks))
    for key, out, e in pmap(lambda k: analyse(prog, k, opaque), ks, maxtasks=1):
        b = prog.bodies[key]
        if e:
            report.und("UNDECIDED %s: %s" % (b.name, e.strip().splitlines()[-1][:200]))
            continue
        rep.functions |= set(out["analysed"])
        rep.count("functions with fallible calls")
        rep.count("fallible call sites", out["sites"])
        bad = {(x[0], x[1]) for x in out["bad"]}
        rep.ok("error path", out["sample"] or None, n=max(0, out["n"] - len(out["bad"])))
        for fn, callee, span, what, g, tr in out["bad"]:
            rep.bad("error dropped", "%s <- %s" % (fn, callee), span,
                    "an Err from %s can be lost: the path reaches a %s without reporting it (when %s)" % (callee, what, g), tr)
    rep.floor("fallible call sites", 500)
