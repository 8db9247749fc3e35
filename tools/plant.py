#!/usr/bin/env python3
"""plant.py FILE...: make planted bugs from definitions, keeping those that are confirmed.

A definition file sets BUGS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)], demo (body of
a Rust main).  In a scratch copy of /repo each is applied, built, run against the stable tests and against its demo.
Confirmed bugs are written to /verif/seeded/<id>/.
"""
import json, os, re, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/sh
# Builds a small program against the crate in the current directory and runs it: 0 if the property holds there.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$here/Cargo.lock.demo" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
graphql-parser = { path = "$repo" }
EOF
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" cargo build --offline --quiet 2> "$tmp/log" || { cat "$tmp/log"; exit 2; }
timeout 60 "$tmp/target/debug/demo"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable(repo):
    o = tempfile.mktemp()
    sh("CARGO_TARGET_DIR= bash /opt/vp/test.sh %s" % o, cwd=repo)
    d = json.load(open(o))
    os.unlink(o)
    return set(d["passed"])


def cargo_test(repo):
    r = sh("env -u CARGO_TARGET_DIR cargo test --offline 2>&1", cwd=repo)
    fails = re.findall(r"^test (.*) \.\.\. FAILED", r.stdout, re.M)
    n = len(re.findall(r"^test .* \.\.\. ok", r.stdout, re.M))
    return n, fails, r.stdout


def main():
    scratch = tempfile.mkdtemp(prefix="plant-")
    repo = os.path.join(scratch, "repo")
    sh("git clone -q /repo %s && cp /repo/Cargo.lock %s/ && cp -a /repo/target %s/" % (repo, repo, repo))
    lock = open("/verif/harness/Cargo.lock").read().replace('name = "gql-conformance"', 'name = "demo"')
    for f in sys.argv[1:]:
        ns = {}
        exec(open(f).read(), ns)
        for b in ns["BUGS"]:
            sh("git checkout -q -- .", cwd=repo)
            d = os.path.join(scratch, "d")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(os.path.join(d, "main.rs"), "w").write(b["demo"])
            open(os.path.join(d, "Cargo.lock.demo"), "w").write(lock)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            clean = sh(d + "/demo.sh", cwd=repo)
            bad = None
            for file, old, new in b["edits"]:
                p = os.path.join(repo, file)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = "edit: %d places for %r" % (s.count(old), old[:60])
                    break
                open(p, "w").write(s.replace(old, new))
            if not bad and clean.returncode != 0:
                bad = "demo on clean: " + clean.stdout[-600:]
            if not bad:
                n, fails, log = cargo_test(repo)
                if n < 105 or fails:
                    bad = "tests: %d ok, failed %s %s" % (n, fails, log[-1500:] if not n else "")
            if not bad:
                r = sh(d + "/demo.sh", cwd=repo)
                if r.returncode in (0, 2):
                    bad = "demo with patch: rc %d %s" % (r.returncode, r.stdout[-300:])
            if bad:
                print("NOT %s: %s" % (b["id"], bad))
                continue
            out = os.path.join(VERIF, "seeded", b["id"])
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(d, out)
            open(os.path.join(out, "patch.diff"), "w").write(sh("git diff", cwd=repo).stdout)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            print("ok  %s" % b["id"])
            sys.stdout.flush()
    shutil.rmtree(scratch)


main()
