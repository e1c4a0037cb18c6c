#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current tree.

Regenerates the LLVM IR of the code and of the property's harnesses, runs the symbolic executor on
every harness, replays counterexamples (and sample paths) natively, writes evidence/PROPERTY.json.
Exit 0: holds within the bounds. Exit 1: VIOLATION line. Anything else: no verdict.
"""
import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import build
from specs import P

V = build.V


def known(pid):
    """known_findings.txt: 'known: property=P | harness | kind | part of the message | part of the function | what'"""
    out = []
    for l in open(os.path.join(V, "known_findings.txt")):
        if l.startswith("known:"):
            f = [x.strip() for x in l[6:].split("|")]
            if f[0] == "property=" + pid:
                out.append(f[1:])
    return out


def matches(k, h, v):
    at = v["loc"] + " " + " ".join(v["stack"])
    return k[0] in ("*", h) and k[1] == v["kind"] and k[2] in v["msg"] and (k[3] == "*" or k[3] in at)


def native(rep, name, w, params):
    try:
        p = subprocess.run([rep, name, w] + [str(x) for x in params], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=60)
        return p.stdout.decode("utf-8", "replace"), p.returncode
    except subprocess.TimeoutExpired:
        return "REPLAY: timeout", -1


def reproduces(v, out, rc):
    if v["kind"] == "check":
        return "REPLAY: FAILED check: " + v["msg"] in out
    if v["kind"] == "panic":
        return "REPLAY: FAILED panic" in out
    if v["kind"] == "recursion":
        return rc < 0 or "overflowed its stack" in out
    return rc < 0 or "REPLAY: FAILED" in out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sp = P[pid]
    try:
        sx = build.engine()
        built = {}
        for fs in [sp["features"]] + [h["features"] for h in sp["harness"] if h.get("features")]:
            if tuple(fs) not in built:
                built[tuple(fs)] = build.harness(fs)
    except build.BuildError as e:
        print("check %s: build failed\n%s" % (pid, e))
        return 2
    tb = time.time() - t0
    od = os.path.join(V, "build", "out", pid)
    os.makedirs(od, exist_ok=True)
    jobs = []
    for h in sp["harness"]:
        for ps in (h.get(tier) or h.get("quick") or [[]]):
            jobs.append((h, ps))
    cap = h_time = 1500 if tier == "thorough" else 480

    def run(j):
        h, ps = j
        out = os.path.join(od, h["name"] + "".join("-%d" % x for x in ps) + ".json")
        if os.path.exists(out):
            os.unlink(out)
        lls, _ = built[tuple(h.get("features") or sp["features"])]
        cmd = [sx, "--entry", h["name"]]
        for x in ps:
            cmd += ["--param", str(x)]
        cmd += ["--time", str(cap), "--paths", "40000000", "--steps", "4000000", "--depth", str(h.get("depth", 300)),
                "--query-ms", "60000", "--out", out] + lls
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=cap + 120)
            if not os.path.exists(out):
                return j, None, p.stdout.decode("utf-8", "replace")[-800:] + " rc=%d" % p.returncode
        except subprocess.TimeoutExpired:
            return j, None, "timeout"
        return j, json.load(open(out)), ""

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(run, jobs))

    kf = known(pid)
    errors, viol, kn = [], [], {}
    traces = mism = 0
    agg = {k: 0 for k in ("paths", "forks", "instrs", "assumed_away", "checks", "checks_concrete", "queries", "sat", "unsat", "unknown", "cached", "solver_s")}
    funcs, per, samples, checks = {}, [], [], {}
    covers_seen = {}
    for (h, ps), d, err in res:
        name = h["name"] + (" " + " ".join(map(str, ps)) if ps else "")
        if d is None:
            errors.append("%s: no result: %s" % (name, err))
            continue
        fs = h.get("features") or sp["features"]
        rep = built[tuple(fs)][1]
        for k in agg:
            agg[k] += d[k]
        for m, n in d["check_msgs"].items():
            checks[m] = checks.get(m, 0) + n
        for m, n in d["covers"].items():
            covers_seen.setdefault(h["name"], {}).setdefault(m, 0)
            covers_seen[h["name"]][m] += n
        for f, b, t in d["functions"]:
            if ("spdmlib" in f or "codec" in f or "transport" in f or "sys_time" in f) and not f.startswith("hn::") and "for hn::" not in f:
                o = funcs.get(f, (0, t))
                funcs[f] = (max(o[0], b), t)
        new = 0
        for v in d["violations"]:
            out, rc = native(rep, h["name"], v["witness"], ps)
            if not reproduces(v, out, rc):
                errors.append("%s: %s '%s' %s does not reproduce natively: %s (witness %s)" % (name, v["kind"], v["msg"], v["loc"], out[-200:].replace("\n", " "), v["witness"][:200]))
                continue
            k = next((k for k in kf if matches(k, h["name"], v)), None)
            if k:
                kn[k[4]] = kn.get(k[4], 0) + 1
                continue
            new += 1
            rp = os.path.join(od, "replay-%d.sh" % (len(viol) + 1))
            ins = "".join("# %s = %s\n" % (n, v["witness"][2 * s:2 * (s + l)]) for n, s, l in v["inputs"])
            with open(rp, "w") as f:
                f.write("#!/bin/sh\n# %s: %s: %s %s\n# harness %s\n# stack: %s\n%scd %s && python3 build.py %s >/dev/null && exec %s %s %s %s\n" % (
                    pid, v["kind"], v["msg"], v["loc"], name, " < ".join(v["stack"]), ins, V, " ".join(fs), rep, h["name"], v["witness"] or "''", " ".join(map(str, ps))))
            os.chmod(rp, 0o755)
            viol.append((v, rp, name, out))
        if not d["exhausted"] and not new:
            errors.append("%s: not exhausted: %s" % (name, "; ".join(d["incomplete"])[:600]))
        # the executor against the native code
        for w, t in d["samples"]:
            out, rc = native(rep, h["name"], w, ps)
            traces += 1
            if "REPLAY: finished " + t not in out and not d["violations"]:
                mism += 1
                errors.append("%s: native run of a sample path differs: %s (inputs %s)" % (name, out[-300:].replace("\n", " "), w[:200]))
        for m, w in d["cover_witness"].items():
            if len(samples) < 12:
                samples.append({"harness": name, "reaches": m, "inputs": w[:400]})
        per.append({"harness": name, "exhausted": d["exhausted"], "paths": d["paths"], "forks": d["forks"], "checks": d["checks"], "queries": d["queries"],
                    "solver_s": d["solver_s"], "slowest_query_s": d["slowest_query_s"], "wall_s": d["wall_s"], "symbolic_bytes": d["max_symbolic_bytes"],
                    "path_constraints": d["max_constraints"], "reached": d["covers"]})
    for h in sp["harness"]:
        for c in h.get("covers", []):
            if not covers_seen.get(h["name"], {}).get(c):
                errors.append("%s: never reaches '%s'" % (h["name"], c))

    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the LLVM IR that rustc emits for /repo's current code, every feasible path within the bounds; "
                           "branch feasibility and assertions decided by Z3. " + sp["bounds"],
            "exhaustive": not errors,
            "bounds": sp["bounds"],
            "outside": sp.get("outside", ""),
            "paths": agg["paths"], "forks": agg["forks"], "instructions": agg["instrs"], "paths_cut_by_assumptions": agg["assumed_away"],
            "assertions_evaluated": agg["checks"], "assertions_constant_on_their_path": agg["checks_concrete"],
            "solver_queries": agg["queries"], "sat": agg["sat"], "unsat": agg["unsat"], "unknown": agg["unknown"], "answered_from_cache": agg["cached"],
            "solver_s": round(agg["solver_s"], 3),
            "paths_compared_with_native_runs": traces, "paths_that_differed": mism,
            "assertions": checks,
            "functions_encoded": {f: "%d of %d blocks" % x for f, x in sorted(funcs.items())},
            "harnesses": per, "samples": samples,
            "build_s": round(tb, 1),
            "known_findings_seen": kn,
        },
        "assumptions": sp.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in kf:
        if k[4] in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[4]))
    for v, rp, name, out in viol[:4]:
        print("%s: %s: %s %s\n   %s\n   %s" % (name, v["kind"], v["msg"], v["loc"], " < ".join(v["stack"][:6]), out.strip()[-300:]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if len(viol) > 4:
        print("%d violations in all, see build/out/%s" % (len(viol), pid))
    for e in errors[:20]:
        print("ERROR: " + e)
    print("%s: %d harness runs, %d paths, %d assertions, %d queries (%.1f s in the solver), build %.0f s, %.0f s" % (
        pid, len(res), agg["paths"], agg["checks"], agg["queries"], agg["solver_s"], tb, time.time() - t0))
    if viol:
        return 1
    return 3 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
