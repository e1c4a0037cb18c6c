#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from specs.py."""
import json
from specs import P, NOT_APPLICABLE

with open("properties.jsonl", "w") as f:
    for pid, s in sorted(P.items()):
        a = {"files": s["files"], "mechanism": [{"name": n, "where": w} for n, w in s["mech"]]}
        if s["state"]:
            a["state"] = [{"name": n, "meaning": w} for n, w in s["state"]]
        f.write(json.dumps({"id": pid, "title": s["title"], "statement": s["statement"], "quantifier": {"over": s["over"], "text": s["text"]},
                            "why_tests_cant": s["why"], "anchors": a}) + "\n")
    for n in NOT_APPLICABLE:
        f.write(json.dumps(n["line"]) + "\n")
checks = []
for pid, s in sorted(P.items()):
    checks.append({"property": pid, "quick_cmd": "python3 check.py " + pid, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
                   "technique": "symbolic execution of the LLVM IR of the code, decided by Z3", "level": "other",
                   "level_note": "Every path of the real code within the bounds; assertions decided by SMT for all values, counterexamples replayed natively. Bounds: " + s["bounds"] + " Outside: " + s["outside"] + " Assumes an ideal-crypto environment."})
json.dump({"version": 1, "setup_cmd": "python3 build.py setup", "hooks": {"guard": "sx_unused", "enable": "no hooks are needed: the checks build /repo as it is", "source_commits": []},
           "checks": checks, "not_applicable": [{"property": n["line"]["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
           "notes": "check.py decides a property; engine/ is the symbolic executor, harness/ the harnesses, specs.py the properties."}, open("MANIFEST.json", "w"), indent=1)

# DESIGN.md
import os, re
from oracles import O


def put(d, mark, text):
    a, b = "<!-- %s -->" % mark, "<!-- /%s -->" % mark
    i, j = d.index(a) + len(a), d.index(b)
    return d[:i] + "\n" + text + d[j:]


t = ""
for pid, s in sorted(P.items()):
    hs = ", ".join("`%s` (%d quick, %d thorough instances)" % (x["name"], len(x["quick"]), len(x["thorough"])) for x in s["harness"])
    t += "### %s %s\n\n%s\n\n* Quantified over: %s.\n* Anchors: %s.\n* Decided by: symbolic execution of the real code, harness %s.\n* Oracle: %s\n* Bounds: %s\n* Outside: %s\n* Why tests cannot: %s\n\n" % (
        pid, s["title"], s["statement"], s["text"], ", ".join("%s (`%s`)" % m for m in s["mech"]), hs, O[pid], s["bounds"], s["outside"], s["why"])
d = put(open("DESIGN.md").read(), "properties", t)
d = put(d, "na", "".join("* %s: %s\n" % (n["line"]["id"], n["reason"]) for n in NOT_APPLICABLE))
d = put(d, "defects", "".join("* %s `%s` %s\n" % re.match(r"fixed: property=(\S+) (\S+) (.*)", l).groups() for l in open("known_findings.txt") if l.startswith("fixed:")))
r = "| change | property | caught by | needs |\n|---|---|---|---|\n"
res = json.load(open("seedkit/results.json")) if os.path.exists("seedkit/results.json") else {}
for n in sorted(os.listdir("seeded")) if os.path.isdir("seeded") else []:
    m = json.load(open("seeded/%s/meta.json" % n))
    r += "| %s | %s | %s | %s |\n" % (n, m["property"], res.get(n, "not recorded"), m["needs"].replace("|", "/"))
d = put(d, "seeds", r)
open("DESIGN.md", "w").write(d)
