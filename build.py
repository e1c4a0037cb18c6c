#!/usr/bin/env python3
"""Builds the executor and the harness IR (+ native replay) from /repo's current tree."""
import os, shutil, subprocess, sys, glob, hashlib, fcntl, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
B = os.path.join(V, "build")
CRATES = ["codec", "sys_time", "mctp_transport", "pcidoe_transport"]


class BuildError(Exception):
    pass


def link(src, dst):
    if os.path.islink(dst):
        if os.readlink(dst) == src:
            return
        os.unlink(dst)
    elif os.path.exists(dst):
        raise BuildError("unexpected " + dst)
    os.symlink(src, dst)


def farm(name="farm"):
    f = os.path.join(B, name)
    os.makedirs(os.path.join(f, "spdmlib", "src"), exist_ok=True)
    for c in CRATES:
        link(os.path.join(REPO, c), os.path.join(f, c))
    for d, sub in ((os.path.join(REPO, "spdmlib"), "spdmlib"), (os.path.join(REPO, "spdmlib", "src"), "spdmlib/src")):
        want = set(os.listdir(d)) - {"src", "target", "config.rs"}
        t = os.path.join(f, sub)
        for n in os.listdir(t):
            p = os.path.join(t, n)
            if os.path.islink(p) and n not in want:
                os.unlink(p)
        for n in want:
            link(os.path.join(d, n), os.path.join(t, n))


def env(cfg):
    e = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER", "RUSTC_WRAPPER", "SPDM_CONFIG", "RUSTDOCFLAGS", "CARGO_ENCODED_RUSTFLAGS")}
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:" + e.get("PATH", "")
    home = e.setdefault("RUSTUP_HOME", "/root/.rustup")
    e.setdefault("CARGO_HOME", "/root/.cargo")
    e["RUSTUP_TOOLCHAIN"] = "nightly-2023-06-20"
    pin = open(os.path.join(REPO, "rust-toolchain")).read().strip().splitlines()
    e["RUSTC"] = os.path.join(home, "toolchains", "nightly-2022-11-21-x86_64-unknown-linux-gnu", "bin", "rustc")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["SPDM_CONFIG"] = cfg
    e["RUSTFLAGS"] = (
        "--emit=llvm-ir,link -C panic=abort -C opt-level=2 -C codegen-units=1 -C overflow-checks=on "
        "-C debug-assertions=off -C no-vectorize-loops -C no-vectorize-slp -C debuginfo=0 "
        "-C target-feature=-sse3 --cap-lints allow"
    )
    return e


def engine():
    e = {k: v for k, v in os.environ.items() if not k.startswith("CARGO_") and k not in ("RUSTFLAGS", "RUSTC", "RUSTUP_TOOLCHAIN", "RUSTC_WORKSPACE_WRAPPER")}
    for k in ("CARGO_HOME",):
        if k in os.environ:
            e[k] = os.environ[k]
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    p = subprocess.run(
        ["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(B, "engine")],
        cwd=os.path.join(V, "engine"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("engine:\n" + p.stdout[-4000:])
    return os.path.join(B, "engine", "release", "sx")


def harness(features, tag=None):
    """Returns (list of .ll files, replay binary)."""
    tag = tag or "-".join(sorted(features))
    hd = os.path.join(V, "harness")
    cfg = os.path.join(hd, "config.json")
    big, raw = "big" in features, "raw" in features
    farm("farm-big" if big else "farm")
    if big or raw:
        # larger buffers (their own copy of the generated configuration), or transcripts kept as they are
        v = "big" if big else "raw"
        if big:
            cfg = os.path.join(hd, "config-big.json")
        bd = os.path.join(B, "hn-" + v)
        os.makedirs(bd, exist_ok=True)
        for n in ("Cargo.toml", "Cargo.lock"):
            s = open(os.path.join(hd, n)).read().replace("../build/farm/", "../farm-big/" if big else "../farm/")
            if raw:
                s = s.replace('"hashed-transcript-data", ', "")
            p = os.path.join(bd, n)
            if not os.path.exists(p) or open(p).read() != s:
                open(p, "w").write(s)
        link(os.path.join(hd, "src"), os.path.join(bd, "src"))
        hd = bd
    td = os.path.join(B, "t", tag)
    tri = "x86_64-unknown-linux-gnu"
    deps = os.path.join(td, tri, "debug", "deps")
    p = subprocess.run(
        ["cargo", "build", "--offline", "--target", tri, "--target-dir", td, "--features", ",".join(features)],
        cwd=hd, env=env(cfg), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("harness:\n" + p.stdout[-6000:])
    # newest .ll of each crate
    best = {}
    for f in glob.glob(os.path.join(deps, "*.ll")):
        c = os.path.basename(f).rsplit("-", 1)[0]
        if c == "replay":
            continue
        if c not in best or os.path.getmtime(f) > os.path.getmtime(best[c]):
            best[c] = f
    return sorted(best.values()), os.path.join(td, tri, "debug", "replay")


if __name__ == "__main__":
    t = time.time()
    print(engine(), round(time.time() - t))
    f = sys.argv[1:]
    if f != ["setup"]:
        print(harness(f), round(time.time() - t))
