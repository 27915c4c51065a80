#!/usr/bin/env python3
"""seed.py new <id> <property> <main.rs> "<needs>" "<breaks>" : takes the uncommitted diff of the scratch copy /tmp/seedw/repo
   seed.py verify [<id>..]   : confirms in a scratch copy that a planted bug applies, builds, passes the tests, and that its demo tells
   seed.py checks [<id>..]   : runs the registered quick check of each planted bug's property against a scratch copy with the bug
"""
import json, os, shutil, subprocess, sys, concurrent.futures as cf
V = "/verif"
W = "/tmp/seedw"
DEMO = """#!/bin/bash
# exit 0 when the behaviour is right; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
yaserde = { path = "$repo/yaserde", features = ["yaserde_derive"] }
xml-rs = "0.8"
log = "0.4"
[profile.dev]
debug = 0
EOF
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
cd "$w" || exit 3
timeout 120 cargo build --offline --quiet || exit 4
timeout 30 ./target/debug/demo
"""


def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
             RUSTC_WRAPPER="", CARGO_INCREMENTAL="1")
    return e


def copy(d):
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(os.path.dirname(d), exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)


def ids(a):
    return a or sorted(os.listdir(V + "/seeded"))


def verify(i):
    d = "%s/v-%s" % (W, i)
    s = "%s/seeded/%s" % (V, i)
    copy(d)
    try:
        rc, o = sh("bash %s/demo.sh" % s, d, env())
        if rc:
            return i, "demo fails on the unchanged tree: " + o[-1500:]
        rc, o = sh("git apply %s/patch.diff" % s, d)
        if rc:
            return i, "does not apply: " + o
        rc, o = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 2 2>&1 | grep -E 'test result|FAILED|error|panicked'", d, env())
        if "FAILED" in o or "error:" in o or "error[" in o or o.count("test result: ok") < 5:
            return i, "tests: " + "\n".join(l for l in o.splitlines() if "ok." not in l)[-1500:]
        rc, o = sh("bash %s/demo.sh" % s, d, env())
        if rc in (0, 3, 4):
            return i, "demo does not fail (rc %d) with the change: %s" % (rc, o[-800:])
        return i, "ok (demo rc %d: %s)" % (rc, o.strip().splitlines()[-1][:150] if o.strip() else "")
    finally:
        shutil.rmtree(d)


def checks(i, props=None):
    d = "%s/c-%s" % (W, i)
    s = "%s/seeded/%s" % (V, i)
    meta = json.load(open(s + "/meta.json"))
    copy(d)
    try:
        rc, o = sh("git apply %s/patch.diff" % s, d)
        if rc:
            return i, "does not apply: " + o
        e = dict(os.environ, VERIF_REPO=d, VERIF_JOBS="4", VERIF_SEED="1", VERIF_TIER="quick")
        out = []
        for p in props or [meta["property"]]:
            rc, o = sh("python3 %s/engine/check.py %s" % (V, p), V, e)
            caught = rc == 1 and "VIOLATION property=%s" % p in o
            out.append("%s %s" % (p, "CAUGHT" if caught else "MISSED rc %d" % rc))
            ls = [l for l in o.splitlines() if l.startswith("violation:")]
            out += ["      " + l[:230] for l in ls[:2]]
            if not caught:
                out.append(o[-600:])
        return i, "\n".join(out)
    finally:
        shutil.rmtree(d)


def new(i, prop, main, needs, breaks):
    s = "%s/seeded/%s" % (V, i)
    os.makedirs(s, exist_ok=True)
    rc, o = sh("git diff", W + "/repo")
    assert o.strip(), "no change"
    open(s + "/patch.diff", "w").write(o)
    shutil.copy(main, s + "/main.rs")
    open(s + "/demo.sh", "w").write(DEMO)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(s + "/meta.json", "w"), indent=1)
    sh("git checkout -- .", W + "/repo")


if __name__ == "__main__":
    c = sys.argv[1]
    if c == "new":
        new(*sys.argv[2:])
    else:
        f = dict(verify=verify, checks=checks)[c]
        with cf.ThreadPoolExecutor(3) as ex:
            for i, r in ex.map(f, ids(sys.argv[2:])):
                print("%s: %s" % (i, r), flush=True)
