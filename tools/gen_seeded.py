#!/usr/bin/env python3
"""Writes seeded/<id>/ from the descriptions in tools/seeds/*.py (a development tool; no check uses it)."""
import os, subprocess, sys, json, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# %s
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
go build -buildvcs=false -o "$T/yot" ./cmd/yot || exit 2
cd "$T" || exit 2
export HOME=$T
'''
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append((id, prop, edits, demo, needs, breaks))
for f in sorted(glob.glob(os.path.join(V, "tools", "seeds", "*.py"))):
    exec(open(f).read())
W = "/tmp/seedgen"
subprocess.run("git -C /repo worktree remove --force %s; git -C /repo worktree prune; git -C /repo worktree add -q --detach %s HEAD" % (W, W), shell=True, stderr=subprocess.DEVNULL)
try:
    only = sys.argv[1:]
    for id, prop, edits, demo, needs, breaks in SEEDS:
        if only and id not in only:
            continue
        for f, old, new in edits:
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "edit of", f, "matches", s.count(old), "times")
                continue
            open(p, "w").write(s.replace(old, new))
        d = subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout
        o = os.path.join(V, "seeded", id)
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, "patch.diff"), "w").write(d)
        open(os.path.join(o, "demo.sh"), "w").write(HEAD % breaks + demo.strip("\n") + "\n")
        os.chmod(os.path.join(o, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(o, "meta.json"), "w"), indent=1)
        subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."])
finally:
    subprocess.run("git -C /repo worktree remove --force %s; git -C /repo worktree prune" % W, shell=True)
