#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tool/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []      # claimed
NA = []         # not applicable

COMMON_NOTE = ("Static: the clang AST of the current sources is interpreted over symbolic objects path by path "
               "(no execution, no solver). Assumes the standard library behaves as specified, no undefined behaviour "
               "elsewhere, and the exclusions listed in the evidence file.")


def P(id, title, statement, over, text, why, files, mech, technique, note="", observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note, observe=observe))


def N(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                   mech=mech, reason=reason, observe=None))


exec(open(os.path.join(V, "tool", "props_data.py")).read())


def three(text):
    """at most three sentences"""
    parts = text.rstrip(".").split(". ")
    while len(parts) > 3:
        i = min(range(len(parts) - 1), key=lambda i: len(parts[i]) + len(parts[i + 1]))
        b = parts[i + 1]
        parts[i:i + 2] = [parts[i] + "; " + b[0].lower() + b[1:]]
    return ". ".join(parts) + "."


def rec(p):
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p.get("observe"):
        a["observe_at"] = p["observe"]
    assert len(p["title"]) <= 80, p["title"]
    return {"id": p["id"], "title": p["title"], "statement": three(p["statement"]),
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}


ids = [p["id"] for p in PROPS + NA]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS + NA, key=lambda p: p["id"]):
        f.write(json.dumps(rec(p)) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 checks/setup.py",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 checks/run.py %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py %s" % p["id"],
        "technique": p["technique"], "level": "other",
        "level_note": (p["note"] + " " if p["note"] else "") + COMMON_NOTE,
    } for p in sorted(PROPS, key=lambda p: p["id"])],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "Static analysis only. Every check parses /repo's current working tree with clang (cached by content) and "
             "reports file:line, class/function and field or path. Exit 3/4: the analysis no longer sees its subject.",
}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "claimed,", len(NA), "not applicable")
