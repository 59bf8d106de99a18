"""Helper to write a planted bug: seed(id, property, needs, breaks, edits, demo, pkg)."""
import json, os, shutil, subprocess, tempfile

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
DEMO = '''#!/bin/bash
# runs demo_test.go inside the package; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$R" "$D" > "$T/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$T/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''


def seed(id, prop, needs, breaks, edits, demo, pkg="."):
    d = os.path.join(ROOT, id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        for path, old, new in edits:
            p = os.path.join(w, "r", path)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit("%s: %d matches of %r" % (path, s.count(old), old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"pkg": pkg})
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo_test.go"), "w").write(demo.lstrip())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
