"""Application data (x data, extension groups) survives a save and a load, and ends where it ends."""
import xdata
from rt import versions
from rtrip import Unsupported


def judge(rep, what, name, d, where):
    rep.functions |= set(d["fns"])
    und = [n for n in d["notes"] if n.startswith("unsupported")]
    for n in d["notes"]:
        if not n.startswith("unsupported"):
            rep.bad(what, "%s %s" % (name, n.split(":")[0]), where, "%s: %s" % (name, n))
    for k, v in d["verdicts"].items():
        rep.check(v == "ok", what, "%s%s %s" % (name, k and " " + k, v if v != "ok" else ""), where, "%s %s does not come back equal: %s" % (name, k, v))
    if und:
        __import__("report").und("UNDECIDED %s: %s" % (name, und[0][:160]))
        rep.count("undecided")
    else:
        rep.count("cases decided")


def guarded(rep, f, name):
    try:
        return f()
    except Unsupported as e:
        __import__("report").und("UNDECIDED %s: %s" % (name, str(e)[:160]))
        rep.count("undecided")
        return None


def run(p, rep):
    rep.rule = ("every kind of x data item, with another item after it and followed by a record, more x data or plain data, an x data entry with a list of items of any "
                "length, and an extension group of pairs and nested groups of any number are written abstractly and fed to the crate's own readers: all must come back equal "
                "and the reader must stop exactly at the pair that follows; x data is written from R2000 on")
    rep.assume += ["a pair inside an extension group does not carry code 102", "nested extension groups are not empty", "handle text conversion is an inverse pair"]
    for k, v in enumerate(p.adts[xdata.XI]["variants"]):
        r = guarded(rep, lambda: xdata.item(p, k), "x data item " + v[0])
        if r:
            rep.functions |= r[0].analysed
            for tn, d in r[1].items():
                judge(rep, "x data item", "%s before %s" % (v[0], tn), d, "%s::%s" % (xdata.XI, v[0]))
    r = guarded(rep, lambda: xdata.whole(p), "x data")
    if r:
        rep.functions |= r[0].analysed
        V = versions(p)
        for vn, d in r[1]:
            if d is None:
                rep.check(V.index(vn) < V.index("R2000"), "x data version", "not written in " + vn, xdata.XD, "x data is dropped in %s" % vn)
            else:
                judge(rep, "x data", vn, d, xdata.XD)
    r = guarded(rep, lambda: xdata.group(p), "extension group")
    if r:
        rep.functions |= r[0].analysed
        judge(rep, "extension group", "group", r[1], xdata.EG)
    rep.floor("cases decided", 30)
