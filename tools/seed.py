#!/usr/bin/env python3
"""seed.py SPEC.py ...: build /verif/seeded/<id>/ from specs and validate (build, demo both ways, optionally the tests).
A spec file defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo, files={})]."""
import json, os, subprocess, sys, shutil
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, executable='/bin/bash', **k)
PRE = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
set -u
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
fail() { echo "BROKEN: $*"; exit 1; }
build() { (cd "$R" && go build -o "$T/gosec" ./cmd/gosec) || exit 3; }
mod() { mkdir -p "$T/m"; printf 'module ex.test/m\\n\\ngo 1.23\\n' > "$T/m/go.mod"; cd "$T/m"; export GOWORK=off; }
# gotest PKGDIR FILE: run an extra test file of that package
gotest() { printf '{"Replace":{"%s":"%s"}}' "$R/$1/zz_demo_test.go" "$2" > "$T/ov.json"; (cd "$R" && go test -vet=off -count=1 -overlay "$T/ov.json" -run '^TestZZDemo$' "./$1"); }
'''
REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
dry = os.environ.get("TESTS")
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    only = os.environ.get("ONLY")
    for s in ns["SEEDS"]:
        if only and s["id"] not in only.split(","): continue
        d = f"{ROOT}/seeded/{s['id']}"
        if os.path.isdir(d): shutil.rmtree(d)
        os.makedirs(d)
        w = f"/tmp/sw{os.getpid()}"
        if os.path.isdir(w): shutil.rmtree(w)
        sh(f"mkdir {w}; cd {REPO}; git archive HEAD | tar x -C {w}; cd {w}; git init -q; git add -A; git -c user.email=a@b -c user.name=a commit -qm x")
        bad = False
        for f, old, new in s["edits"]:
            p = os.path.join(w, f); t = open(p).read()
            if t.count(old) != 1: print(s["id"], "EDIT count", t.count(old), repr(old)); bad = True; break
            open(p, "w").write(t.replace(old, new))
        if bad: continue
        diff = sh(f"cd {w}; git diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(PRE + s["demo"].lstrip("\n")); os.chmod(d + "/demo.sh", 0o755)
        for n, t in s.get("files", {}).items(): open(os.path.join(d, n), "w").write(t)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        b = sh(f". /opt/vp/env.sh; cd {w}; gofmt -l $(git diff --name-only); go build ./... && go vet $(git diff --name-only | xargs -n1 dirname | sort -u | sed 's|^|./|')")
        if b.returncode or b.stdout.strip(): print(s["id"], "BUILD", b.stdout[:200], b.stderr[:500]); continue
        a = sh(f"cd {REPO}; git apply --check {d}/patch.diff")
        o0 = sh(f"cd {REPO}; bash {d}/demo.sh"); o1 = sh(f"cd {w}; bash {d}/demo.sh")
        ok = a.returncode == 0 and o0.returncode == 0 and o1.returncode not in (0, 3)
        msg = f"{s['id']}: apply {a.returncode} demo clean {o0.returncode} patched {o1.returncode} {'OK' if ok else 'NOT OK'}"
        if not ok: msg += "\n" + "\n".join((o0.stdout + o0.stderr + "----\n" + o1.stdout + o1.stderr)[-1500:].split("\n"))
        if ok and dry:
            t = sh(f". /opt/vp/env.sh; cd {w}; go test -timeout 800s ./... 2>&1 | grep -E '^(FAIL|---|ok|panic)|Summary|\\[FAIL\\]' | grep -vE '^ok|--- PASS' | head -8")
            msg += "  tests: " + (t.stdout.strip()[:600] or "pass")
        print(msg, flush=True)
