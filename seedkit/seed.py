#!/usr/bin/env python3
"""Developer tool: make /verif/seeded/<id> from seeds.py and confirm it. seed.py [-n] [-p PID] id...   (-n: skip the check)"""
import fcntl, json, os, re, shutil, subprocess, sys
K = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get("SEED_ROOT")  # a scratch copy: $SEED_ROOT/{repo,v,ws,tst.sh}
V = ROOT + "/v" if ROOT else os.path.dirname(K)
R = ROOT + "/repo" if ROOT else "/repo"
T = ROOT + "/tst.sh" if ROOT else "/tmp/tst.sh"
OUT = os.path.dirname(K)
if ROOT:
    os.environ["SX_REPO"] = R
sys.path.insert(0, K)
import seeds


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    a = sys.argv[1:]
    nocheck = "-n" in a
    pid = None
    if "-p" in a:
        i = a.index("-p"); pid = a[i + 1]; del a[i:i + 2]
    a = [x for x in a if x != "-n"]
    if not a:
        a = [i for i in seeds.S if not os.path.exists(f"{OUT}/seeded/{i}/patch.diff")]
    assert sh("git status --short", cwd=R).stdout == "", "dirty /repo"
    for i in a:
        s = seeds.S[i]
        d = f"{OUT}/seeded/{i}"
        tmp = f"/tmp/seedmk/{i}"
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        for f in ("sx.rs", "aid.rs", "demo.sh"):
            shutil.copy(f"{K}/{f}", tmp)
        shutil.copy(f"{V}/harness/src/env.rs", tmp)
        shutil.copy(f"{V}/harness/Cargo.lock", f"{tmp}/lock")
        t = open(f"{tmp}/lock").read().replace('name = "hn"', 'name = "demo"')
        open(f"{tmp}/lock", "w").write(t)
        open(f"{tmp}/main.rs", "w").write(seeds.PRE + s["demo"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{tmp}/meta.json", "w"), indent=1)
        res = [i, s["prop"]]
        try:
            r0 = sh(f"bash {tmp}/demo.sh", cwd=R)
            res.append("demo-clean %d" % r0.returncode)
            if r0.returncode: print(r0.stdout[-1500:])
            ok = True
            for f, old, new in s["edits"]:
                p = f"{R}/{f}"
                t = open(p).read()
                if t.count(old) != 1:
                    print(i, "edit matches", t.count(old), f, old[:60]); ok = False; break
                open(p, "w").write(t.replace(old, new))
            if not ok:
                continue
            diff = sh("git diff", cwd=R).stdout
            open(f"{tmp}/patch.diff", "w").write(diff)
            o = sh(f"bash {T}").stdout.strip()
            res.append(o[-200:])
            r1 = sh(f"bash {tmp}/demo.sh", cwd=R)
            res.append("demo-patched %d" % r1.returncode)
            if r1.returncode == 2 or r1.returncode == 0: print(r1.stdout[-1500:])
            good = r0.returncode == 0 and r1.returncode not in (0, 2) and o.split("\n")[-1].endswith("missing []")
            if not nocheck:
                c = sh(f"python3 {V}/check.py {pid or s['prop']}")
                res.append("CHECK exit %d" % c.returncode)
                v = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
                res.append(v[0][:300] if v else c.stdout[-300:])
                caught = f"{pid or s['prop']}: " + (next((l for l in c.stdout.splitlines() if re.match(r"h_\w+.*: (check|panic|memory|[a-z ]+): ", l)), v[0])[:140] if v else "MISSED (exit %d)" % c.returncode)
            if good and not nocheck:
                p = f"{K}/results.json"
                with open("/tmp/seed.lock", "w") as lk:
                    fcntl.flock(lk, fcntl.LOCK_EX)
                    j = json.load(open(p)) if os.path.exists(p) else {}
                    j[i] = caught
                    json.dump(j, open(p, "w"), indent=1, sort_keys=True)
            if good:
                shutil.rmtree(d, ignore_errors=True)
                shutil.copytree(tmp, d)
                res.append("KEPT")
            else:
                res.append("NOT KEPT")
        finally:
            sh("git checkout -- .", cwd=R)
            shutil.rmtree(tmp, ignore_errors=True)
        print(" | ".join(res), flush=True)


main()
