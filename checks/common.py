"""Reporting: violations, obligations, known findings, evidence."""
import json
import os
import time

from mz import VERIF, Broken  # noqa: F401


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []   # dicts
        self.obligations = []  # (rule, construct, loc)
        self.rules = {}        # rule -> text
        self.assumptions = []
        self.samples = {}
        self.counts = {}
        self.explanation = ""
        self.notes = []

    def rule(self, rid, text, minimum=1):
        """declares a rule; fewer instances than `minimum` on a run means that the analysis lost its anchors"""
        self.rules[rid] = {"text": text, "minimum": minimum, "instances": 0, "failed": 0}

    def ok(self, rid, construct, loc=""):
        self.rules[rid]["instances"] += 1
        s = self.samples.setdefault(rid, [])
        if len(s) < 12:
            s.append("%s %s" % (loc, construct))

    def bad(self, rid, construct, loc, message, key=None):
        """one obligation which fails.  key: stable identification for the known findings file"""
        self.rules[rid]["instances"] += 1
        self.rules[rid]["failed"] += 1
        self.violations.append({"rule": rid, "construct": construct, "loc": loc, "message": message,
                                "key": key or "%s|%s" % (rid, construct)})

    def check(self, cond, rid, construct, loc, message, key=None):
        if cond:
            self.ok(rid, construct, loc)
        else:
            self.bad(rid, construct, loc, message, key)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n


def known_findings():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def finish(rep, db, t0):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    broken = []
    for rid, r in rep.rules.items():
        if r["instances"] < r["minimum"]:
            broken.append("rule %s matched %d instances, at least %d expected: the analysis lost its anchors" % (rid, r["instances"], r["minimum"]))
    known = {k["key"]: k for k in known_findings() if k["property"] == rep.prop and k.get("status") == "open"}
    fresh, listed = [], []
    seen = set()
    for v in rep.violations:
        kk = (v["key"], v["loc"])
        if kk in seen:
            continue
        seen.add(kk)
        (listed if v["key"] in known else fresh).append(v)
    total = sum(r["instances"] for r in rep.rules.values())
    failed = sum(r["failed"] for r in rep.rules.values())
    cov = {
        "explanation": rep.explanation,
        "obligations": total,
        "discharged": total - failed,
        "rules": {k: {"rule": r["text"], "instances": r["instances"], "failed": r["failed"]} for k, r in rep.rules.items()},
        "samples": rep.samples,
        "analysed": {
            "translation_units": len(db.tus), "functions": len(db.fns), "records": len(db.records), "enums": len(db.enums),
            "type_check_errors": db.nerrors,
        },
    }
    if rep.counts:
        cov["counts"] = rep.counts
    if rep.notes:
        cov["notes"] = rep.notes
    if listed:
        cov["known_findings_reported"] = [v["key"] for v in listed]
    j = {
        "property": rep.prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
        "assumptions": [
            "the functions of takatori/yugawara that are absent from the sandbox behave as their names in /verif/stubs say (only types and signatures are used by the analysis)",
        ] + rep.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(ev, rep.prop + ".json"), "w") as f:
        json.dump(j, f, indent=1)
        f.write("\n")
    replay = os.path.join(ev, "replay-%s.json" % rep.prop)
    if fresh or listed:
        with open(replay, "w") as f:
            json.dump({"property": rep.prop, "violations": fresh, "known": listed, "replay_cmd": "python3 checks/run.py " + rep.prop}, f, indent=1)
    elif os.path.exists(replay):
        os.remove(replay)
    for v in listed:
        print("KNOWN-FINDING: property=%s %s: %s [%s]" % (rep.prop, v["loc"], v["message"], v["key"]))
    for v in fresh:
        print("%s: [%s] %s: %s" % (v["loc"], v["rule"], v["construct"], v["message"]))
    print("%s: %d obligations, %d discharged, %d violations, %d known findings (%d units, %d functions)" % (
        rep.prop, total, total - failed, len(fresh), len(listed), len(db.tus), len(db.fns)))
    if fresh:
        print("VIOLATION property=%s replay=%s" % (rep.prop, replay))
        return 1
    if broken:
        for b in broken:
            print("ANALYSIS-BROKEN " + b)
        return 2
    return 0
