#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from a description file and confirms it in a scratch copy.

usage: mkseed.py SEEDS.py [id...]   (SEEDS.py defines SEEDS, a list of dicts)
Each dict: id, property, needs, breaks, edits [(file, old, new)], pkg, test (Go test source).
"""
import json, os, shutil, subprocess, sys, runpy
REPO, OUT = "/repo", "/verif/seeded"
DEMO = '''#!/bin/sh
# Exit 0 when the behaviour is right, non-zero when it is broken. Run in the repository root.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
GOFLAGS=-mod=readonly GOPROXY=off go test -count=1 -vet=off -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%s
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def failing(cwd):
    r = run("go test -count=1 ./... 2>&1 | grep -E '^\\s*--- FAIL|^FAIL|panic' | sed -E 's/[0-9.]+s//; s/\\([^)]*\\)//' | sort", cwd, shell=True)
    return r.stdout
seeds = runpy.run_path(sys.argv[1])["SEEDS"]
want = set(sys.argv[2:])
base = None
for s in seeds:
    if want and s["id"] not in want: continue
    wt = "/tmp/seedwt"
    shutil.rmtree(wt, ignore_errors=True)
    run(["git", "-C", REPO, "worktree", "prune"], "/")
    shutil.copytree(REPO, wt)
    run("git checkout -q -- .", wt, shell=True)
    if base is None: base = failing(wt)
    d = os.path.join(OUT, s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    with open(d + "/demo_test.go.txt", "w") as f: f.write(s["test"].lstrip("\n"))
    with open(d + "/demo.sh", "w") as f: f.write(DEMO % (s["pkg"], s["pkg"]))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = run(["sh", d + "/demo.sh"], wt)
    ok = True
    if r0.returncode != 0: ok = False; print(s["id"], "DEMO FAILS ON CLEAN TREE\n", r0.stdout[-1500:])
    for f, old, new in s["edits"]:
        src = open(wt + "/" + f).read()
        if src.count(old) != 1: ok = False; print(s["id"], "EDIT matches", src.count(old), "times in", f); continue
        open(wt + "/" + f, "w").write(src.replace(old, new))
    open(d + "/patch.diff", "w").write(run("git diff", wt, shell=True).stdout)
    b = run("go build ./... && go vet ./abi/... >/dev/null 2>&1 || go build ./...", wt, shell=True)
    if b.returncode != 0: ok = False; print(s["id"], "BUILD", b.stdout[-800:])
    t = failing(wt)
    if t != base: ok = False; print(s["id"], "TESTS DIFFER\n", t)
    r1 = run(["sh", d + "/demo.sh"], wt)
    if r1.returncode == 0: ok = False; print(s["id"], "DEMO PASSES WITH BUG")
    elif "[build failed]" in r1.stdout or "[setup failed]" in r1.stdout: ok = False; print(s["id"], "DEMO BUILD", r1.stdout[-1500:])
    # lines added by our own commits must not be what is changed
    print(s["id"], "ok" if ok else "NOT OK", flush=True)
    shutil.rmtree(wt, ignore_errors=True)
