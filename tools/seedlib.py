"""Helpers for writing planted changes: mk() writes /verif/seeded/<id>/."""
import difflib, json, os, subprocess
ROOT = "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0: the property's behaviour is right; nonzero: it is broken
D=$(cd "$(dirname "$0")"; pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
echo "{\\"Replace\\":{\\"$PWD/%(dir)s/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$T/overlay.json"
exec timeout 250 go test -overlay "$T/overlay.json" -vet=off -count=1 %(flags)s -run 'TestDemo' ./%(dir)s
'''
def mk(id, prop, edits, dir, test, needs, what, flags=""):
    d = os.path.join(ROOT, id); os.makedirs(d, exist_ok=True)
    byfile = {}
    for f, old, new in edits:
        byfile.setdefault(f, []).append((old, new))
    patch = ""
    for f, es in byfile.items():
        a = open(os.path.join("/repo", f)).read(); b = a
        for old, new in es:
            assert b.count(old) == 1, (id, f, b.count(old), old)
            b = b.replace(old, new)
        patch += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.sh", "w").write(DEMO % dict(dir=dir, flags=flags)); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.go", "w").write(test.lstrip())
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
