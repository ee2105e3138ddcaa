#!/usr/bin/env python3
"""Developer tool: makes and validates planted bugs. Spec files: tools/seeds/*.py-style dicts in seedspecs.py.
usage: seed.py [ID...]   validates patch + demo, and reports which checks catch it."""
import json, os, re, subprocess, sys
root = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
sys.path.insert(0, os.path.dirname(__file__))

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
printf '{"Replace": {"%%s/%s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/o.json"
go test -overlay "$tmp/o.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%s
'''

# for packages that need the two modules which are missing here: stand-ins lie beside the demo
DEMO_FULL = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
cp go.mod "$tmp/go.mod"; cp go.sum "$tmp/go.sum"
for m in %s; do
	case $m in
	json-iter) echo "replace github.com/json-iterator/go => $here/mods/jsoniter" ;;
	*) echo "replace github.com/indigo-web/$m => $here/mods/$m" ;;
	esac
done >> "$tmp/go.mod"
export GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOFLAGS="-mod=mod -modfile=$tmp/go.mod"
printf '{"Replace": {"%%s/%s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/o.json"
go test -overlay "$tmp/o.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' ./%s
'''

def make(id, property, needs, breaks, edits, pkg, test, mods=()):
    d = f"{root}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
    try:
        for path, old, new in edits:
            p = "/repo/" + path
            s = open(p).read()
            assert s.count(old) == 1, (id, path, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally:
        sh("git -C /repo checkout -- .")
    pk = pkg if pkg != "." else ""
    if mods:
        open(d + "/demo.sh", "w").write((DEMO_FULL % (" ".join(mods), pk, pk)).replace("//zz", "/zz"))
        for m in mods:
            sh(f"mkdir -p {d}/mods && cp -r {root}/stubs/{m} {d}/mods/")
    else:
        open(d + "/demo.sh", "w").write(DEMO % (pk, pk))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.go", "w").write(test.lstrip())
    json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)

def validate(id):
    d = f"{root}/seeded/{id}"
    meta = json.load(open(d + "/meta.json"))
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    if r.returncode != 0:
        print(id, "BAD demo fails on unchanged tree", r.stdout[-600:], r.stderr[-600:]); return
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode != 0:
        print(id, "BAD patch", a.stderr); return
    try:
        b = sh("bash /opt/vp/build.sh", cwd="/repo")
        if b.returncode != 0:
            print(id, "BAD build", b.stderr); return
        sh("bash /opt/vp/test.sh /tmp/seed_out.json", cwd="/repo")
        base = json.load(open("/opt/vp/BASELINE.json"))
        out = json.load(open("/tmp/seed_out.json"))
        names = base if isinstance(base, list) else base["stable"]
        failed = [t for t in names if t not in set(out.get("passed", []))]
        if failed:
            print(id, "BAD stable tests fail:", failed[:5]); return
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        if r.returncode == 0:
            print(id, "BAD demo passes with the patch"); return
        if "FAIL" not in r.stdout and "panic" not in r.stdout + r.stderr:
            print(id, "SUSPECT demo:", r.stdout[-400:], r.stderr[-400:])
        c = sh(f"./check.sh {meta['property']}", cwd=root)
        caught = c.returncode == 1 and f"VIOLATION property={meta['property']} " in c.stdout
        where = c.stdout.split("\n")[0][:150] if caught else ""
        print(id, meta["property"], "caught" if caught else "MISSED", where)
    finally:
        sh("git -C /repo checkout -- .")

if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(root + "/seeded"))
    for i in ids:
        validate(i)
