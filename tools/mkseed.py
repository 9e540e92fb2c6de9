#!/usr/bin/env python3
"""Makes and confirms planted bugs: mkseed.py SPEC.py [ID…] — SPEC defines SEEDS = [dict(id, property, edits, main, needs, breaks)].
A seed is kept only when it builds, passes the stable tests, and its demonstration passes without it and fails with it."""
import json, os, re, shutil, subprocess, sys
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
DEMO = '''#!/bin/bash
# builds main.rs (beside this script) against the crate in the current directory and runs it
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD/email-parser
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
mkdir -p $D/src
cp "$H/main.rs" $D/src/main.rs
cat > $D/Cargo.toml <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
email-parser = { path = "$R"%s }
[workspace]
T
cd $D && CARGO_TARGET_DIR=$D/target cargo run -q --offline 2> $D/err || { grep -A6 "^error\|panicked" $D/err; exit 1; }
'''
MIME = ', features = ["mime", "content-disposition", "unrecognized-headers"]'


def sh(c, cwd=None, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env=env)


def fresh():
    if not os.path.isdir(W):
        shutil.copytree("/repo", W, symlinks=True)
    sh("git checkout -q . && git clean -fdq -e target", W)
    h = sh("git rev-parse HEAD", "/repo").stdout.strip()
    if sh("git rev-parse HEAD", W).stdout.strip() != h:
        sh("git fetch -q /repo && git checkout -q " + h, W)


def tests():
    # the repository's scripts name /repo; point them at the copy
    e = open("/opt/vp/env.sh").read().replace("/repo", W)
    open(W + "/.e.sh", "w").write(e)
    b = open("/opt/vp/build.sh").read().replace("/repo", W).replace("/opt/vp/env.sh", W + "/.e.sh")
    t = open("/opt/vp/test.sh").read().replace("/repo", W).replace("/opt/vp/env.sh", W + "/.e.sh")
    open(W + "/.b.sh", "w").write(b)
    open(W + "/.t.sh", "w").write(t)
    r = sh("bash .b.sh", W)
    if r.returncode:
        return "does not build: " + (r.stdout + r.stderr)[-1500:]
    r = sh("bash .t.sh /tmp/seedout.json", W)
    o = json.load(open("/tmp/seedout.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    m = set(b["stable"]) - set(o["passed"])
    os.remove(W + "/.b.sh")
    os.remove(W + "/.e.sh")
    os.remove(W + "/.t.sh")
    return "fails tests: %s" % m if m else ""


def main(spec, ids):
    g = {}
    exec(open(spec).read(), g)
    for s in g["SEEDS"]:
        if ids and s["id"] not in ids:
            continue
        d = os.path.join(HOME, "seeded", s["id"])
        fresh()
        bad = ""
        os.makedirs("/tmp/seeddemo", exist_ok=True)
        open("/tmp/seeddemo/main.rs", "w").write(s["main"])
        open("/tmp/seeddemo/demo.sh", "w").write((DEMO % s.get("feat", MIME)).replace("{ path", "{ default-features = false, path" if s.get("nodef") else "{ path"))
        if s.get("reject"):
            # the program must be refused by the borrow checker
            t = open("/tmp/seeddemo/demo.sh").read()
            i = t.index("cd $D && CARGO")
            open("/tmp/seeddemo/demo.sh", "w").write(t[:i] + 'cd $D && CARGO_TARGET_DIR=$D/target cargo check -q --offline 2> $D/err && { echo "main.rs compiles"; exit 1; }\ngrep -q "^error.E0\\(597\\|515\\|505\\|716\\|499\\|506\\)" $D/err || { cat $D/err; exit 1; }\n')
        r = sh("bash /tmp/seeddemo/demo.sh", W)
        if r.returncode:
            print(s["id"], "demo fails on the unchanged tree:", (r.stdout + r.stderr)[-1500:])
            continue
        for f, old, new in s["edits"]:
            p = os.path.join(W, "email-parser/src", f)
            t = open(p).read()
            if t.count(old) != 1:
                bad = "edit matches %d times: %s" % (t.count(old), old[:60])
                break
            open(p, "w").write(t.replace(old, new))
        bad = bad or tests()
        if bad:
            print(s["id"], bad)
            continue
        r = sh("bash /tmp/seeddemo/demo.sh", W)
        if r.returncode == 0:
            print(s["id"], "the demo does not notice")
            continue
        out = r.stdout + r.stderr
        if "error[E" in out or "could not compile" in out:
            print(s["id"], "demo does not compile with the change", out[-800:])
            continue
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git diff", W).stdout)
        shutil.copy("/tmp/seeddemo/main.rs", d)
        shutil.copy("/tmp/seeddemo/demo.sh", d)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(s["id"], "kept")
    fresh()


main(sys.argv[1], sys.argv[2:])
