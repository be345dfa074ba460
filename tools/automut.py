#!/usr/bin/env python3
"""A campaign of mechanical changes: automut.py [-j N] [-o LOG] [-n MAX] FILE...
Each change that builds and passes the existing tests is put to the quick
checks (scaled down, without design checks) of the properties that the file
matters to, until one notices. Changes in LOG already are not tried again."""
import json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROPS = {
    "delivery/consumer.go": "C02 C03 C05 C22 C26 C08 C15 C04 C01 C09",
    "delivery/ordering.go": "C28 C11 C14 C26 C12 C10 C13 C09 C25 C15 C22",
    "delivery/producer.go": "C07 C06 C01 C26",
    "delivery/types.go": "C07 C06 C01 C26 C27",
    "waiter/waiter.go": "C15",
    "transports/kafka.go": "C18 C17 C23 C27 C24 C16 C21 C15",
    "transports/websockets.go": "C20 C19 C21 C23",
    "transports/resolver.go": "C21 C23 C24 C16 C22",
}
a = sys.argv[1:]
def opt(n, d):
    if n in a:
        i = a.index(n); v = a[i + 1]; del a[i:i + 2]; return v
    return d
J, LOG, MAX = int(opt("-j", "2")), opt("-o", "/tmp/automut.log"), int(opt("-n", "100000"))
gen = os.path.join(tempfile.mkdtemp(prefix="am-"), "gen")
subprocess.check_call(["go", "build", "-o", gen, "."], cwd=os.path.join(HERE, "tools/automut"))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", VERIF_NODESIGN="1", VERIF_SCALE=os.environ.get("VERIF_SCALE", "0.15"))
seen = set()
if os.path.exists(LOG):
    seen = set(l.split(" ", 1)[0] for l in open(LOG))

def run(x):
    f, m = x
    w = tempfile.mkdtemp(prefix="am-")
    r = os.path.join(w, "repo")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        p = os.path.join(r, f)
        s = open(p, "rb").read()
        open(p, "wb").write(s[:m["off"]] + m["new"].encode() + s[m["end"]:])
        env = dict(ENV, VERIF_REPO=r)
        if subprocess.run(["go", "build", "./delivery", "./transports", "./waiter"], cwd=r, env=env, capture_output=True).returncode:
            return "nobuild"
        pkg = "./transports" if f.startswith("transports") else "./delivery"
        try:
            if subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "60s", pkg], cwd=r, env=env, capture_output=True).returncode:
                return "tests"
        except subprocess.TimeoutExpired:
            return "tests"
        notes = ""
        for prop in PROPS[f].split():
            try:
                c = subprocess.run(["timeout", "-k", "5", "600", "python3", "check.py", prop, "quick"], cwd=HERE, env=env, capture_output=True, text=True, timeout=700)
            except subprocess.TimeoutExpired:
                notes += " %s=timeout" % prop
                continue
            if c.returncode == 1:
                return "caught " + prop + notes
            if c.returncode:
                notes += " %s=%d:%s" % (prop, c.returncode, (c.stdout + c.stderr)[-160:].replace("\n", "~"))
        return "SURVIVED" + notes
    finally:
        shutil.rmtree(w, ignore_errors=True)

todo = []
for f in a:
    for l in subprocess.check_output([gen, "/repo/" + f], text=True).splitlines():
        m = json.loads(l)
        if "%s:%d-%d:%s" % (f, m["off"], m["end"], m["what"]) not in seen:
            todo.append((f, m))
random.Random(5).shuffle(todo)
with ThreadPoolExecutor(J) as ex, open(LOG, "a") as log:
    def one(x):
        f, m = x
        v = run(x)
        log.write("%s:%d-%d:%s L%d %s %s: `%s` -> `%s` = %s\n" % (f, m["off"], m["end"], m["what"], m["line"], m["fn"], m["what"],
                  m["old"][:90].replace("\n", "~"), m["new"][:90].replace("\n", "~"), v))
        log.flush()
    list(ex.map(one, todo[:MAX]))
