#!/usr/bin/env python3
"""plant.py SPEC.py...: makes seeded bugs and confirms them in a scratch copy.

A spec file defines bugs = [dict(id, property, needs, breaks, pkg, edits=[(file, old, new)], demo=Go test source)]."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Run in the repository: exit 0 when the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" > "$T/o.json"
cp "$D/demo_test.go.txt" "$T/demo_test.go" 2>/dev/null
sed -i "s#$D/demo_test.go#$T/demo_test.go#" "$T/o.json"
go test -overlay "$T/o.json" -vet=off -count=1 -run 'TestDemo' %s./%s
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True, **kw)

def tests_ok(d):
    # The stable tests, run in the copy.
    p = sh("go build ./... && go test ./... 2>&1", d, timeout=600)
    return p.returncode == 0, (p.stdout + p.stderr)[-3000:]

def main():
    for f in sys.argv[1:]:
        ns = {}
        exec(open(f).read(), ns)
        for b in ns["bugs"]:
            one(b)

def one(b):
    t = tempfile.mkdtemp(prefix="plant-")
    d = os.path.join(t, "repo")
    try:
        shutil.copytree("/repo", d)
        dst = os.path.join(ROOT, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        with open(dst + "/demo_test.go.txt", "w") as g: g.write(b["demo"])
        with open(dst + "/demo.sh", "w") as g: g.write(DEMO % (b["pkg"], b.get("flags", ""), b["pkg"]))
        os.chmod(dst + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        p = sh("bash %s/demo.sh" % dst, d, timeout=300)
        err = None
        if p.returncode != 0:
            err = "demo fails on the unchanged tree:\n" + (p.stdout + p.stderr)[-3000:]
        else:
            for fn, old, new in b["edits"]:
                s = open(os.path.join(d, fn)).read()
                if s.count(old) != b.get("count", 1):
                    err = "%s: %d occurrences of %r" % (fn, s.count(old), old)
                    break
                open(os.path.join(d, fn), "w").write(s.replace(old, new))
        if not err:
            ok, out = tests_ok(d)
            if not ok: err = "tests fail:\n" + out
        if not err:
            p = sh("bash %s/demo.sh" % dst, d, timeout=300)
            if p.returncode == 0: err = "demo passes with the change"
        if err:
            shutil.rmtree(dst)
            print("NOT PLANTED", b["id"], err)
            return
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
        open(dst + "/patch.diff", "w").write(diff)
        print("planted", b["id"], b["property"])
    finally:
        shutil.rmtree(t)

main()
