#!/usr/bin/env python3
"""Development aid (no check uses it): makes, confirms and tries the planted changes of /verif/seeded.

  bugs.py make SPEC.py [ID...]   patch.diff, demo.sh, demo.rs, meta.json from a spec, confirmed in a scratch copy
  bugs.py confirm [ID...]        tests pass with the patch; the demonstration fails with it and passes without it
  bugs.py try [ID...]            applies each to /repo, runs its property's check, undoes it
"""
import json, os, runpy, shutil, subprocess, sys, time
S = "/verif/seeded"
W = "/tmp/bugs/repo"
ENV = dict(os.environ, PATH=os.path.expanduser("~/.cargo/bin") + ":" + os.environ["PATH"], RUSTUP_TOOLCHAIN="1.83.0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", TERM="dumb")
DEMO = r'''#!/bin/bash
# Builds demo.rs against the working tree in the current directory and runs it. Nonzero if the property is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export PATH="$HOME/.cargo/bin:/usr/local/bin:$PATH" RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
static-xml = { path = "$repo/static-xml" }
static-xml-derive = { path = "$repo/static-xml-derive" }
xml-rs = "0.8.4"
[profile.dev]
debug = 0
EOF
cd "$t" || exit 2
timeout 280 cargo run --offline -q
'''
DEMO_FAIL = DEMO.replace("cargo run --offline -q", "cargo build --offline -q")


def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout


def scratch():
    if not os.path.exists(W):
        os.makedirs(os.path.dirname(W), exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", W], check=True)
    sh(["git", "checkout", "-q", "--", "."], W)
    head = sh(["git", "rev-parse", "HEAD"], "/repo")[1].strip()
    if sh(["git", "rev-parse", "HEAD"], W)[1].strip() != head:
        sh(["git", "fetch", "-q", "/repo"], W)
        print(sh(["git", "reset", "-q", "--hard", head], W)[1])


def tests(cwd):
    rc, out = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", cwd)
    return rc, out


def confirm(i):
    d = os.path.join(S, i)
    scratch()
    rc, out = sh(["bash", os.path.join(d, "demo.sh")], W)
    if rc != 0:
        return "demo fails on the unchanged tree:\n" + out[-1500:]
    rc, out = sh(["git", "apply", os.path.join(d, "patch.diff")], W)
    if rc != 0:
        return "does not apply: " + out
    try:
        rc, out = tests(W)
        if rc != 0:
            return "tests fail:\n" + "\n".join(l for l in out.splitlines() if "FAILED" in l or "error" in l or "panicked" in l)[:1500]
        rc, out = sh(["bash", os.path.join(d, "demo.sh")], W)
        if rc == 0:
            return "demo passes with the patch"
        last = [l for l in out.splitlines() if l.strip()]
        print("   demo:", " | ".join(last[:3])[:200])
    finally:
        sh(["git", "checkout", "-q", "--", "."], W)
    return None


def original_lines(i):
    """Lines the patch removes must be the original repository's."""
    out = open(os.path.join(S, i, "patch.diff")).read()
    base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], W)[1].strip()[:7]
    import re
    f, ln, removed, bad = None, 0, 0, []
    for l in out.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            b = sh(["git", "blame", "-L", f"{ln},{ln}", "--root", "HEAD", "--", f], W)[1]
            removed += 1
            if not b.lstrip("^").startswith(base):
                bad.append(l)
            ln += 1
        elif not l.startswith("+") and not l.startswith("\\"):
            ln += 1
    return removed, bad


def make(spec, only):
    for b in runpy.run_path(spec)["BUGS"]:
        if only and b["id"] not in only:
            continue
        scratch()
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(W, f)
                s = open(p).read()
                n = b.get("nth", {}).get(old)
                if n is None:
                    assert s.count(old) == 1, (b["id"], s.count(old), old)
                    s = s.replace(old, new)
                else:
                    parts = s.split(old)
                    s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
                open(p, "w").write(s)
        except AssertionError as e:
            print("!!", e)
            continue
        diff = sh(["git", "diff"], W)[1]
        sh(["git", "checkout", "-q", "--", "."], W)
        d = os.path.join(S, b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(b.get("demo_sh", DEMO))
        open(os.path.join(d, "demo.rs"), "w").write(b["demo"].lstrip())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = original_lines(b["id"])
        if r[0] == 0 or r[1]:
            print("!! lines:", b["id"], r)
        e = confirm(b["id"])
        print(b["id"], "OK" if e is None else "REJECTED " + e, flush=True)
        if e is not None:
            shutil.rmtree(d)


def attempt(i):
    d = os.path.join(S, i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    assert sh(["git", "status", "--porcelain"], "/repo")[1] == ""
    rc, out = sh(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
    assert rc == 0, out
    t = time.time()
    try:
        rc, out = sh([sys.executable, "/verif/check.py", prop], "/verif", 1000)
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."])
    v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
    w = [l for l in out.splitlines() if l.startswith("--- ")]
    cp = "/verif/tools/caught.json"
    c = json.load(open(cp)) if os.path.exists(cp) else {}
    c[i] = "yes" if rc == 1 and v else "no"
    json.dump(c, open(cp, "w"), indent=1, sort_keys=True)
    print(f"{i:14} {prop} {'CAUGHT' if rc == 1 and v else 'MISSED rc=%d' % rc} {time.time() - t:.0f}s {w[0][:150] if w else ''}", flush=True)


a = sys.argv[1:]
ids = lambda x: x or sorted(os.listdir(S))
if a[0] == "make":
    make(a[1], a[2:])
elif a[0] == "confirm":
    for i in ids(a[1:]):
        print(i, confirm(i) or "OK", original_lines(i), flush=True)
else:
    for i in ids(a[1:]):
        attempt(i)
