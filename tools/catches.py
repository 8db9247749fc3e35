#!/usr/bin/env python3
"""catches.py [--all] [ID...]: apply each planted bug to /repo in turn, run checks, undo.  Appends to build/catches.json.

Without --all only the check of the bug's own property is run."""
import json, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.listdir(os.path.join(VERIF, "seeded")))
store = os.path.join(VERIF, "build", "catches.json")
res = json.load(open(store)) if os.path.exists(store) else {}
for i in ids:
    d = os.path.join(VERIF, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout
    props = ["C%02d" % k for k in range(1, 29)] if "--all" in sys.argv else [prop]
    try:
        subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], check=True)
        for p in props:
            r = subprocess.run([os.path.join(VERIF, "bin", "check"), p, "--quick"], capture_output=True, text=True, cwd=VERIF)
            caught = r.returncode == 1 and ("VIOLATION property=%s " % p) in r.stdout
            res.setdefault(i, {})[p] = r.returncode
            if p == prop or caught or r.returncode == 2:
                print("%-10s %s rc=%d %s" % (i, p, r.returncode, "CAUGHT" if caught else "missed" if r.returncode == 0 else "?? " + r.stdout[-300:] + r.stderr[-300:]))
                if p == prop and caught:
                    print("    " + "\n    ".join(r.stdout.splitlines()[1:3])[:500])
            sys.stdout.flush()
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True, check=True)
    json.dump(res, open(store, "w"), indent=1)
