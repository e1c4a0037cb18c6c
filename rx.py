#!/usr/bin/env python3
"""Developer helper: rx.py FEATURE[,FEATURE] 'h_name p0 p1' ... [-t secs] [-v]: compact results."""
import sys, json, subprocess, build
from concurrent.futures import ThreadPoolExecutor
a = sys.argv[1:]
t = "60"
if "-t" in a:
    i = a.index("-t"); t = a[i + 1]; del a[i:i + 2]
vv = "-v" in a
a = [x for x in a if x != "-v"]
sx = build.engine()
try:
    lls, rep = build.harness(a[0].split(","))
except build.BuildError as e:
    s = str(e)
    i = s.find("error")
    print(s[i:i + 3500]); sys.exit(1)


def run(s):
    h, *ps = s.split(); ps = [str(int(x, 0)) for x in ps]
    out = "/tmp/rx-" + "-".join([h] + ps) + ".json"
    cmd = [sx, "--entry", h]
    for p in ps: cmd += ["--param", p]
    cmd += ["--time", t, "--depth", "300", "--paths", "40000000", "--steps", "4000000", "--out", out] + lls
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        d = json.load(open(out))
    except Exception:
        return s, None, p.stdout[-1500:]
    o = []
    for v in d["violations"][:6]:
        r = subprocess.run([rep, h, v["witness"]] + ps, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        o.append((v, r.stdout.strip()[-200:].replace("\n", " | ")))
    bad = 0
    for w, tt in d["samples"]:
        r = subprocess.run([rep, h, w] + ps, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if "finished " + tt not in r.stdout: bad += 1
    return s, d, (o, bad, len(d["samples"]))


for s in ThreadPoolExecutor(8).map(run, a[1:]):
    n, d, o = s
    if d is None:
        print(n, "NO RESULT", o); continue
    o, bad, ns = o
    print(f"{n}: {'ok' if d['exhausted'] else 'NOT EXHAUSTED ' + '; '.join(d['incomplete'])[:300]} paths {d['paths']} checks {d['checks']} queries {d['queries']} solver {d['solver_s']:.1f} wall {d['wall_s']:.1f} covers {d['covers']} cut {d['assumed_away']} viol {len(d['violations'])} mismatches {bad}/{ns}")
    for v, r in o:
        print("  V", v["kind"], v["msg"], v["loc"], " < ".join(x[-70:] for x in v["stack"][:5]))
        print("     ", {nm: v["witness"][2 * a:2 * (a + l)][:80] for nm, a, l in v["inputs"]})
        print("      replay:", r)
