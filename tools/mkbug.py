#!/usr/bin/env python3
"""Writes /verif/seeded/<id> from a specification module.

usage: mkbug.py SPEC.py [ID ...]

A specification defines BUGS: a list of dicts with id, property, needs, breaks,
edits [(file, old, new)], pkg (package directory of the demonstration) and
test (Go source of the demonstration, defining TestDemo).  The edits are made
in a scratch worktree of /repo and saved as a patch.
"""
import json, os, shutil, subprocess, sys, tempfile

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")

DEMO = """#!/bin/bash
# run with cwd at the repository; exit 0 when the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
source /opt/vp/env.sh 2>/dev/null
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat >"$tmp/overlay.json" <<EOF
{"Replace": {"$(pwd)/%(pkg)s/zz_demo_test.go": "$here/demo_test.go.txt"}}
EOF
%(env)sgo test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 250s -run '^TestDemo$' ./%(pkg)s
"""


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    want = set(sys.argv[2:])
    for b in spec["BUGS"]:
        if want and b["id"] not in want:
            continue
        d = os.path.join(SEEDED, b["id"])
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="mkbug")
        subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
        for f, old, new in b["edits"]:
            p = tmp + "/r/" + f
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit("%s: %d matches in %s of %r" % (b["id"], s.count(old), f, old))
            open(p, "w").write(s.replace(old, new))
            if f.endswith(".go"):
                subprocess.check_call(["gofmt", "-l", "-w", p], stdout=subprocess.DEVNULL)
        diff = subprocess.check_output(["git", "-C", tmp + "/r", "diff"])
        open(d + "/patch.diff", "wb").write(diff)
        shutil.rmtree(tmp)
        open(d + "/demo_test.go.txt", "w").write(b["test"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO % {"pkg": b["pkg"], "env": b.get("env", "")})
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        print("wrote", b["id"])


main()
