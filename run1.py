#!/usr/bin/env python3
"""Developer helper: build one feature and run harnesses. run1.py FEATURE HARNESS [param...] [-t secs]"""
import sys, json, subprocess, os, build
feat, h = sys.argv[1], sys.argv[2]
rest = sys.argv[3:]
t = "60"
if "-t" in rest:
    i = rest.index("-t"); t = rest[i + 1]; del rest[i:i + 2]
sx = build.engine()
lls, rep = build.harness([feat])
out = f"/tmp/{h}.json"
cmd = [sx, "--entry", h]
for p in rest: cmd += ["--param", p]
cmd += ["--time", t, "--depth", "300", "--out", out] + lls
p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if p.stdout.strip(): print(p.stdout[-2000:])
d = json.load(open(out))
for k in ("exhausted", "incomplete", "paths", "forks", "instrs", "checks", "checks_concrete", "queries", "unknown", "solver_s", "slowest_query_s", "load_s", "wall_s", "covers", "check_msgs", "assumed_away"):
    print(k, d[k])
for v in d["violations"][:8]:
    print("V", v["kind"], v["msg"], v["loc"], v["stack"][-6:] if v["stack"] else "")
    print("   ", {n: v["witness"][2 * s:2 * (s + l)] for n, s, l in v["inputs"]})
    r = subprocess.run([rep, h, v["witness"]] + rest, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("    replay:", r.stdout.strip()[-300:])
print(len(d["violations"]), "violations")
