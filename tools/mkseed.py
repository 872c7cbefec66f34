#!/usr/bin/env python3
"""mkseed.py NAME PROPERTY: takes the uncommitted change in the scratch copy /tmp/seed/repo as a seeded bug, writes
its folder under /verif/seeded and resets the copy. The demonstration's test is read from stdin."""
import json, os, subprocess, sys
name, prop, needs, breaks = sys.argv[1:5]
tags = sys.argv[5] if len(sys.argv) > 5 else ""
pkg = "."
d = f"/verif/seeded/{name}"
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "diff"], cwd="/tmp/seed/repo", capture_output=True, text=True).stdout
assert diff, "no change"
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo_test.go", "w").write(sys.stdin.read())
open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# a test of /repo's exported API, run through an overlay: 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
cp /repo/go.mod "$tmp/w.mod" && cp /repo/go.sum "$tmp/w.sum" || exit 2
echo '{{"Replace":{{"/repo/zz_demo_test.go":"'"$here"'/demo_test.go"}}}}' >"$tmp/o.json"
cd /repo && /usr/local/bin/go1.27.3 test {("-tags " + tags + " ") if tags else ""}-mod=mod -modfile="$tmp/w.mod" -overlay "$tmp/o.json" -vet=off -count=1 -run '^TestSeeded$' -timeout 200s .
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
subprocess.run(["git", "checkout", "-q", "--", "."], cwd="/tmp/seed/repo")
