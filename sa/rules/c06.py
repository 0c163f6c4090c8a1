"""Entity fields survive a save and a load."""
import instance, records, rtrip


def run(p, rep):
    rep.rule = ("the pairs each entity type writes (symbolic field values, per version) are fed to the crate's own reader; every field must come back "
                "equal, except where the reviewed table says the version does not store it; lists of known lengths with unknown elements are written and read element by element")
    und = records.run(p, rep, "entity", rtrip.ET, rtrip.entity, "entities", "e")
    instance.check(p, rep, "entity")
    instance.fallback(p, rep, "entity", und)
    rep.floor("entity types decided", 40)
