"""Common driver of the checks: obligations, violations, known findings, evidence."""
import json
import os
import sys
import time
import traceback

import facts
from facts import AnalysisBroken, VERIF, REPO

EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Check:
    def __init__(self, prop, rule):
        self.prop = prop
        self.rule = rule
        self.t0 = time.time()
        self.obl = {}          # clause -> number of obligations examined
        self.bad = []          # (key, where, message)
        self.samples = []
        self.P = None
        self.extra = {}
        self.assumptions = []
        self.floors = {}
        self.visits_all = ()   # functions (suffix of the name) whose loops have to visit every element
        self.may_stop = ()     # functions whose loops over elements may stop early

    def load(self, files):
        self.P = facts.load(files)
        self.extra["translation_units"] = len(files)
        self.extra["functions_loaded"] = len(self.P.funcs)
        return self.P

    def ok(self, clause, what=None, n=1):
        self.obl[clause] = self.obl.get(clause, 0) + n
        if what and sum(1 for s in self.samples if s.startswith(clause + ":")) < 4:
            self.samples.append(clause + ": " + what)

    def viol(self, key, where, msg):
        """key identifies the construct (class, function, field), not a line number"""
        if key not in [b[0] for b in self.bad]:
            self.bad.append((key, where, msg))

    def floor(self, clause, n):
        """fewer instances than confirmed by hand: the analysis no longer sees its subject"""
        self.floors[clause] = n


def known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or not line.startswith("{"):
                continue
            d = json.loads(line)
            if d.get("status") == "known":
                out.setdefault(d["property"], {})[d["key"]] = d["what"]
    return out


def finish(c):
    kf = known().get(c.prop, {})
    for qn, (where, how) in sorted((c.P.early if c.P is not None else {}).items()):
        if qn not in c.may_stop:
            c.viol("loop:" + qn, where, "%s: a %s leaves a loop over elements before the last element is dealt with" % (qn, how))
    for qn, (where, how) in sorted((c.P.breaks if c.P is not None else {}).items()):
        if any(qn.endswith(x) for x in c.visits_all):
            c.viol("loop:" + qn, where, "%s: a %s may leave a loop over elements before the last element is dealt with" % (qn, how))
    news, olds = [], []
    for key, where, msg in c.bad:
        (olds if key in kf else news).append((key, where, msg))
    for clause, n in c.floors.items():
        # the analysis itself must still see its subject
        if c.obl.get(clause, 0) < n and not news:
            raise AnalysisBroken("clause '%s': only %d instances analysed, at least %d expected"
                                 % (clause, c.obl.get(clause, 0), n))
    os.makedirs(EVID, exist_ok=True)
    tot = sum(c.obl.values())
    ev = {
        "property": c.prop,
        "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER", "quick") in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "static analysis of the type-checked sources (no execution). Rule: " + c.rule,
            "rule": c.rule,
            "obligations": tot,
            "discharged": max(0, tot - len(c.bad)),
            "obligations_by_clause": c.obl,
            "samples": c.samples[:24],
        },
        "assumptions": c.assumptions,
        "wall_s": round(time.time() - c.t0, 2),
        "violations": len(news),
    }
    ev["coverage"].update(c.extra)
    if olds:
        ev["coverage"]["known_findings"] = [k for k, _, _ in olds]
    rep = os.path.join(EVID, c.prop + ".report.txt")
    with open(os.path.join(EVID, c.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    with open(rep, "w") as f:
        for key, where, msg in news:
            f.write("%s\n  at %s\n  %s\n" % (key, where, msg))
    for key, where, msg in olds:
        print("KNOWN-FINDING: property=%s %s [%s]" % (c.prop, kf[key], key))
    for key, where, msg in news:
        print("%s: %s: %s" % (where, key, msg))
    if news:
        print("VIOLATION property=%s replay=%s" % (c.prop, rep))
        return 1
    print("property %s: %d obligations hold (%s) in %.1fs" % (
        c.prop, tot, ", ".join("%s=%d" % kv for kv in c.obl.items()), time.time() - c.t0))
    return 0


def main(registry):
    sys.setrecursionlimit(20000)
    if len(sys.argv) < 2 or sys.argv[1] not in registry:
        print("usage: run.py <property>; one of: " + " ".join(sorted(registry)))
        return 2
    prop = sys.argv[1]
    try:
        c = registry[prop]()
        rc = finish(c)
        facts.trim_cache()
        return rc
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
        return 3
    except Exception:
        print("".join(traceback.format_exc().splitlines(True)[-6:]))
        print("ANALYSIS-BROKEN property=%s: internal error" % prop)
        return 4
