"""Verdict bookkeeping shared by all rules: obligations, violations with line-free keys,
coverage floors, known findings and the evidence file."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


UNDEC = []


def und(msg):
    """an obligation that could not be decided on this tree: said, counted, never an alarm"""
    UNDEC.append(msg)
    print(msg)


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.viol = {}
        self.counts = {}
        self.floors = {}
        self.samples = []
        self.obligations = 0
        self.discharged = 0
        self.functions = set()
        self.rule = ""
        self.assume = []
        self.incomplete = None

    # ---- obligations
    def ok(self, what, sample=None, n=1):
        self.obligations += n
        self.discharged += n
        self.counts[what] = self.counts.get(what, 0) + n
        if n and sample is not None and sum(1 for s in self.samples if s.get("rule") == what) < 3:
            self.samples.append({"rule": what, "case": str(sample)[:400]})

    def bad(self, what, key, where, msg, trace=None):
        """one violated obligation; key has no line numbers"""
        self.obligations += 1
        self.counts[what] = self.counts.get(what, 0) + 1
        k = what + ": " + key
        if k not in self.viol:
            self.viol[k] = {"key": k, "where": where, "message": msg, "trace": trace or []}

    def check(self, cond, what, key, where="", msg="", sample=None, trace=None):
        if cond:
            self.ok(what, sample if sample is not None else key)
        else:
            self.bad(what, key, where, msg, trace)
        return cond

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def floor(self, what, n):
        """fail closed when fewer instances than counted by hand were analysed"""
        self.floors[what] = n

    def used(self, it):
        self.functions |= it.analysed

    # ---- verdict
    def finish(self, prog, tree):
        if UNDEC:
            self.counts["undecided on this tree"] = len(UNDEC)
        strict = os.environ.get("VERIF_STRICT")
        for what, n in self.floors.items() if self.incomplete is None and (strict or not UNDEC) else ():
            got = self.counts.get(what, 0)
            if got < n:
                k = "coverage: " + what
                self.viol[k] = {"key": k, "where": "(whole program)", "trace": [],
                                "message": "the rule matched %d instances, at least %d exist on the confirmed tree: "
                                           "constructs the property needs have disappeared or can no longer be analysed" % (got, n)}
        known = {}
        kf = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if not line or line.startswith("#"):
                    continue
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == self.pid:
                    known[d["key"]] = d["what"]
        # a listed key may end in "*": the named construct fails whatever the rest of the verdict says
        stars = [k[:-1] for k in known if k.endswith("*")]
        new, old = [], []
        for k, v in sorted(self.viol.items()):
            if k not in known:
                for x in stars:
                    if k.startswith(x):
                        known[k] = known[x + "*"]
            (old if k in known else new).append(v)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        for v in old:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[v["key"]]))
        replay = os.path.join(VERIF, "evidence", self.pid + ".violations.json")
        if new:
            json.dump({"property": self.pid, "tree": tree, "rule": self.rule, "violations": new}, open(replay, "w"), indent=1)
            for v in new:
                print("  [%s] %s\n      %s" % (v["key"], v["where"], v["message"]))
                for t in v["trace"]:
                    print("        via %s" % t)
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
        elif os.path.exists(replay):
            os.unlink(replay)
        names = sorted({prog.bodies[k].name for k in self.functions if k in prog.bodies}) if prog else []
        if os.environ.get("VERIF_COV"):
            json.dump(names, open(os.path.join(os.environ["VERIF_COV"], self.pid), "w"))
        ev = {
            "property": self.pid, "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": self.rule,
                "obligations": self.obligations, "discharged": self.discharged,
                "known_findings": len(old),
                "checker_cmd": "./check %s" % self.pid,
                "trusted_base": ["rustc MIR of the crate (nightly, via the driver in /verif/driver)", "/verif/sa abstract interpreter and its models of std",
                                 "the DXF reference facts frozen in the rule"],
                "functions_analysed": len(self.functions), "function_sample": names[:12],
                "instances": self.counts, "floors": self.floors, "samples": self.samples[:12],
                "tree": os.path.basename(tree), "incomplete": self.incomplete, "undecided": UNDEC[:40],
            },
            "assumptions": self.assume,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new),
        }
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        print("%s: %d obligations, %d discharged, %d functions analysed, %d violations, %d known findings, %.1fs" % (
            self.pid, self.obligations, self.discharged, len(self.functions), len(new), len(old), time.time() - self.t0))
        return 1 if new else 0
