#!/usr/bin/env python3
"""Development aid: builds and tries planted bugs from a description file.

usage: mkseed.py FILE.py [ID...]
FILE.py calls seed(id, prop, pkg, edits, test, needs, breaks) with edits a list
of (file, old text, new text) and test the source of an in-package Go test."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ENV = dict(os.environ, GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
DEMO = '''#!/bin/bash
# exit 0 when the code behaves, nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOWORK=off
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
export DEMO_DIR="$t"
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$d/demo_test.go\\"}}" > "$t/overlay.json"
go test -count=1 -vet=off %(race)s-timeout 120s -overlay "$t/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''
seeds = []
def seed(id, prop, pkg, edits, test, needs, breaks, race=False):
    seeds.append((id, prop, pkg, edits, test, needs, breaks, race))
exec(open(sys.argv[1]).read())
want = sys.argv[2:]
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(ENV, **k))
for id, prop, pkg, edits, test, needs, breaks, race in seeds:
    if want and id not in want:
        continue
    w = "/tmp/seedwork-" + id
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(REPO, w)
    ok = True
    for f, a, b in edits:
        s = open(os.path.join(w, f)).read()
        if s.count(a) != 1:
            print(id, "edit does not match once:", f, s.count(a), repr(a)[:80]); ok = False
        open(os.path.join(w, f), "w").write(s.replace(a, b))
    if not ok:
        shutil.rmtree(w); continue
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    diff = sh("git diff", w).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"pkg": pkg, "race": "-race " if race else ""})
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo_test.go"), "w").write(test)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r = sh("go build ./... && go test ./... 2>&1 | grep -v '^ok\\|no test files'", w)
    b = sh("go build ./...", w)
    t = sh("go test ./...", w)
    d0 = sh(os.path.join(d, "demo.sh"), REPO)
    d1 = sh(os.path.join(d, "demo.sh"), w)
    c = sh("%s/check.sh %s" % (ROOT, prop), ROOT, VERIF_REPO_DIR=w, VERIF_SEED="1", VERIF_TIER="quick")
    viol = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
    print(id, prop, "build", b.returncode, "tests", t.returncode, "demo clean", d0.returncode, "demo patched", d1.returncode, "check", c.returncode, viol)
    if b.returncode or t.returncode: print(b.stdout[-500:], t.stdout[-800:])
    if d0.returncode: print(d0.stdout[-800:])
    if d1.returncode == 0: print(d1.stdout[-500:])
    if c.returncode != 1: print(c.stdout[-1500:])
    shutil.rmtree(w)
