#!/usr/bin/env python3
"""seed.py FILE.py [id...]: makes planted bugs from a table (SEEDS), confirms each in a scratch copy, and writes seeded/<id>.

SEEDS: id -> dict(prop, needs, breaks, edits=[(file, old, new)], demo=Go test source of package jsonvalue_test or jsonvalue)"""
import sys, os, subprocess, json, shutil, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
DEMO = '''#!/bin/bash
# run with cwd = the repository: exit 0 if the property holds for the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 RACE -timeout 120s -run '^TestZZDemo$' .
'''
def sh(cmd, cwd=W, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=env, capture_output=True, text=True, errors='replace', **k)
def passed():
    # the stable tests, in the scratch copy
    t = open("/opt/vp/test.sh").read().replace("/repo", W)
    open("/tmp/seedtest.sh", "w").write(t)
    sh("bash /tmp/seedtest.sh /tmp/seedout.json")
    o = json.load(open("/tmp/seedout.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    ids = lambda x, k: set(x[k] if isinstance(x[k], list) else x[k].keys()) if k in x else set()
    want = ids(b, "passed") or ids(b, "stable")
    return sorted(want - ids(o, "passed"))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for sid, s in ns["SEEDS"].items():
    if len(sys.argv) > 2 and sid not in sys.argv[2:]:
        continue
    sh("git worktree prune", cwd="/repo")
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree("/repo", W, symlinks=True)
    sh("git checkout -q -- .")
    d = os.path.join(root, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo_test.go.txt", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(DEMO.replace("RACE", "-race" if s.get("race") else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    clean = sh(f"bash {d}/demo.sh")
    for f, old, new in s["edits"]:
        t = open(f"{W}/{f}").read()
        if t.count(old) != 1:
            print(sid, "EDIT MATCHES", t.count(old), repr(old)); break
        open(f"{W}/{f}", "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git diff").stdout)
    b = sh("go build ./...")
    if b.returncode: print(sid, "BUILD", b.stderr[:500]); continue
    miss = passed()
    bad = sh(f"bash {d}/demo.sh")
    p = s["prop"]
    c = subprocess.run(f"timeout 900 {root}/bin/analyzer -prop {p} -repo {W} -verif /tmp/vv", shell=True, env=env, capture_output=True, text=True)
    ok = clean.returncode == 0 and bad.returncode != 0 and not miss
    print(sid, p, "valid" if ok else "INVALID", "caught" if c.returncode == 1 else f"MISSED rc={c.returncode}")
    if clean.returncode: print("  demo fails on the clean tree:", (clean.stdout + clean.stderr)[-800:])
    if not bad.returncode: print("  demo passes with the patch")
    if miss: print("  broken tests:", len(miss), miss[:3])
    if c.returncode == 1:
        print("   ", [l for l in c.stdout.splitlines() if l.startswith("  [")][:1])
    if ok: open(os.path.join(root, "seeded", sid, "meta.json"), "w").write(json.dumps(dict(property=p, needs=s["needs"], what_it_breaks=s["breaks"]), indent=1))
