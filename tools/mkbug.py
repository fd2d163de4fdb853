#!/usr/bin/env python3
"""mkbug.py FILE: FILE (python) calls bug(...). Builds /verif/seeded/<id>/ and confirms it in a scratch copy:
the change compiles, the 52 stable tests pass, the demonstration exits 0 without it and not 0 with it."""
import json, os, subprocess, sys, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mkbug-repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
DEMO = '''#!/bin/bash
# run in /repo: exit 0 where the property holds
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/parsel-demo-XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
parsel = { path = "$repo/parsel" }
[workspace]
T
cd "$work" || exit 1
export CARGO_TARGET_DIR=$work/target CARGO_NET_OFFLINE=true
cargo run --offline --quiet
'''
def sh(c, cwd, **k): return subprocess.run(c, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(c, str), **k)
def tests():
    out = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > log 2>&1; python3 /opt/vp/results.py res.json cargo:log", W)
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
    try: d = json.load(open(W + "/res.json"))
    except Exception: return None, open(W + "/log").read()[-1500:]
    return d, open(W + "/log").read()
def bug(id, prop, edits, demo, needs, breaks, only=[], compiles=True):
    if len(sys.argv) > 2 and id not in sys.argv[2:]: return
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    shutil.rmtree(W, ignore_errors=True)
    sh("cp -a /repo " + W, "/")
    sh("git checkout -q -- .", W)
    for f, a, b in edits:
        p = os.path.join(W, f); s = open(p).read()
        if s.count(a) != 1: print(id, "EDIT MATCHES %d times" % s.count(a), a[:60]); return
        open(p, "w").write(s.replace(a, b))
    diff = sh("git diff", W).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    res, log = tests()
    bad = [l for l in log.split("\n") if re.match(r"test .*FAILED|error", l)]
    r1 = sh(["bash", d + "/demo.sh"], W)
    r0 = sh(["bash", d + "/demo.sh"], "/repo")
    ok = not bad and r1.returncode != 0 and r0.returncode == 0 and (not compiles or "error[" not in r1.stdout and "could not compile" not in r1.stdout)
    print("%s %s: tests %s; demo clean %d, patched %d" % ("OK " if ok else "BAD", id, bad[:3] or "pass", r0.returncode, r1.returncode))
    if not ok: print(r0.stdout[-600:], "\n--\n", r1.stdout[-600:])
    shutil.rmtree(W, ignore_errors=True)
A = "parsel/src/ast.rs"; U = "parsel/src/util.rs"; DP = "parsel_derive/src/parse.rs"; DT = "parsel_derive/src/to_tokens.rs"; DU = "parsel_derive/src/util.rs"; DF = "parsel_derive/src/from_str.rs"; DD = "parsel_derive/src/display.rs"
exec(open(sys.argv[1]).read())
