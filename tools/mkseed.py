#!/usr/bin/env python3
"""mkseed.py <id> <property> <file> <<< JSON {"old","new","needs","breaks","demo","pkg"}: writes a planted bug."""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
def mk(id, prop, edits, needs, breaks, demo, pkg="delivery", flags="", broker=False):
    d = os.path.abspath(os.path.join(HERE, id))
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    r = os.path.join(w, "repo")
    subprocess.check_call(["git", "clone", "-q", "/repo", r])
    for f, old, new in edits:
        p = os.path.join(r, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo_test.go"), "w").write(demo)
    more = ""
    if broker:  # the in-process Kafka broker of the harness
        b = open(os.path.join(HERE, "..", "harness", "kbroker.go")).read().replace("package main", "package transports_test", 1)
        b += '\nfunc infra(f string, a ...interface{}) { panic(fmt.Sprintf(f, a...)) }\n'
        open(os.path.join(d, "kbroker_test.go"), "w").write(b)
        more = ',"%s/transports/zz_kbroker_test.go":"%s/kbroker_test.go"'
    open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# exit 0: the guarantee holds; nonzero: it is broken
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"%s}}' "$PWD" "$D"%s > "$T/ov.json"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
timeout 280 go test -vet=off -count=1 -timeout 270s %s -overlay "$T/ov.json" -run '^TestDemo$' ./%s
''' % (pkg, more, ' "$PWD" "$D"' if broker else "", flags, pkg))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(w)
