"""Delivery of saved bytes: buffered writers are flushed before success, and no partial write/read primitive is used."""
from terms import *
from interp import Interp, OPTION, RESULT
from par import pmap

def buffered(t):
    return t[0] == "adt" and (t[1].endswith("BufWriter") or t[1].endswith("LineWriter"))


# functions that write through a caller's writer (black boxes that leave it unflushed)
WRITERS = {"drawing::Drawing::save_internal", "drawing::Drawing::save", "drawing::Drawing::save_binary", "drawing::Drawing::save_dxb",
           "drawing::Drawing::code_pairs", "dxb_writer::DxbWriter::<'a, T>::write"}


def analyse(prog, key):
    b = prog.bodies[key]
    it = Interp(prog, opaque=lambda x: x.name in WRITERS or len(x.blocks) > 40)
    made = {}
    nflush = [0]

    def on_call(it, st, fr, args, info):
        name = info["name"]
        if info["body"] is not None and not it.opaque(info["body"]):
            return  # expanded: its own calls are seen
        for a, t in zip(args, info["atys"]):
            if t[0] == "ref" and buffered(t[1]):
                r = a
            else:
                continue
            if name.endswith("::flush") or info["decl"].endswith("::flush") or name.endswith("::into_inner"):
                st.gset("dirty", st.ghost.get("dirty", frozenset()) - {r})
                nflush[0] += 1
            elif "drop" in name or (t[0] == "ref" and not t[2]):
                pass
            else:
                st.gset("dirty", st.ghost.get("dirty", frozenset()) | {r})

    def on_result(it, st, fr, r, dty, span, fop):
        if buffered(dty):
            made[r] = span

    it.on_call = on_call
    it.on_result = on_result
    res = it.run(b)
    bad = []
    for s, ret in res:
        if ret.op == "agg" and ret.a[0] == RESULT and ret.a[1] == 1:
            continue
        for r in s.ghost.get("dirty", ()):
            bad.append((b.span, B.show(s.pc, 2)[:200]))
    partial = []
    for e in it.events:
        if e.kind != "call":
            continue
        d = e.d["decl"]
        if d in ("std::io::Write::write", "std::io::Write::write_vectored"):
            partial.append((e.fn, e.span, "std::io::Write::write may accept only part of the buffer"))
        if d == "std::io::Read::read":
            buf = e.d["vals"][1]
            n = it.length(State0(), buf)
            if not (is_k(n) and n.a[1] == 1):
                partial.append((e.fn, e.span, "std::io::Read::read may fill only part of a buffer longer than one byte"))
    return {"made": len(made), "flush": nflush[0], "bad": bad, "partial": partial, "analysed": list(it.analysed),
            "io": sum(1 for e in it.events if e.kind == "call" and e.d["decl"].startswith(("std::io::Write::", "std::io::Read::"))),
            "reads": sum(1 for e in it.events if e.kind == "call" and e.d["decl"] == "std::io::Read::read")}


def State0():
    from interp import State
    return State()


def run(prog, rep):
    rep.rule = ("typestate of every buffered writer the library creates: on every path to a success return the writer is flushed after the last "
                "operation that received it; and every raw I/O call is one that cannot transfer only part of a buffer")
    ks = []
    for b in prog.bodies.values():
        if not b.isfn or b.derived:
            continue
        if uses_io(prog, b):
            ks.append(b.key)
    for key, out, e in pmap(lambda k: analyse(prog, k), ks):
        b = prog.bodies[key]
        if e:
            rep.bad("analysis", b.name, b.span, "could not be analysed: " + e)
            continue
        rep.functions |= set(out["analysed"])
        rep.count("I/O calls", out["io"])
        rep.count("one-byte reads", out["reads"])
        rep.count("buffered writers", out["made"])
        rep.ok("flush before success", b.name, n=max(0, out["made"] - len(out["bad"])))
        rep.ok("whole-buffer I/O", b.name, n=max(0, out["io"] - len(out["partial"])))
        for span, g in out["bad"]:
            rep.bad("flush before success", b.name, span, "a buffered writer created here reaches a success return with unflushed data (%s): "
                    "a failed final write would go unreported" % g)
        for fn, span, msg in out["partial"]:
            rep.bad("whole-buffer I/O", fn, span, msg)
    rep.floor("I/O calls", 5)


def uses_io(prog, b):
    if any(buffered(t) or (t[0] == "ref" and buffered(t[1])) for t in b.locals):
        return True
    for blk in b.blocks:
        if not blk:
            continue
        t = blk[1]
        if t[0] == "call" and t[1][0] == "k" and t[1][1][1][0] == "fn":
            n = prog.fns[t[1][1][1][1]]
            s = n["name"] + " " + n.get("rname", "")
            if "BufWriter" in s or "LineWriter" in s or "std::io::Write" in s or "std::io::Read" in s:
                return True
    return False
