#!/usr/bin/env python3
"""mkseed.py SPEC.py : write seeded/<id>/{patch.diff,meta.json,demo.sh,demo.cpp} from a spec
(a python file with SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=C++ source | sh=...)])."""
import json, os, shutil, subprocess, sys
W = "/tmp/w"
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--detach", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()])
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        if t.count(old) != 1:
            sys.exit("%s: %s: text occurs %d times" % (s["id"], f, t.count(old)))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", W, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "demo" in s:
        open(d + "/demo.cpp", "w").write(s["demo"])
        shutil.copy("/verif/tool/demo.sh.in", d + "/demo.sh")
    if "sh" in s:
        open(d + "/demo.sh", "w").write(s["sh"])
    for n, t in s.get("files", {}).items():
        open(os.path.join(d, n), "w").write(t)
    print(s["id"])
