"""Object fields survive a save and a load."""
import instance, records, rtrip


def run(p, rep):
    rep.rule = ("the pairs each object type writes (symbolic field values, per version) are fed to the crate's own reader; every field must come back "
                "equal, except where the reviewed table says the version does not store it; lists of known lengths with unknown elements are written and read element by element")
    und = records.run(p, rep, "object", rtrip.OT, rtrip.obj, "objects", "o")
    instance.check(p, rep, "object")
    instance.fallback(p, rep, "object", und)
    rep.floor("object types decided", 35)
