"""Header variables survive a save and a load."""
import records, rtrip


def run(p, rep):
    rep.rule = ("the pairs the header writer emits (symbolic values, per version) are fed to the crate's own header reader; every variable must come back "
                "equal, except where the reviewed table says the version does not store it")
    records.one(p, rep, "header", "Header", rtrip.header(p), "header", {"": rtrip.HDR})
    rep.floor("header records decided", 1)
    rep.floor("header field and version", 4500)
