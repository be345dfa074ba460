#!/usr/bin/env python3
"""Decides one property of /repo against the TLA+ specification in /verif/spec.

    check.py <property> [quick|thorough]      run the check of a property
    check.py <property> replay <file>         run the case of a replay file again

A check (1) model-checks the design modules of the property with TLC, (2) builds
the harness from /repo's working tree, (3) drives the real code through
schedules enumerated by TLC from the specification and through seeded random
ones, recording what it did, and (4) has TLC validate every recorded trace
against the trace module of the specification, with the clauses of this property
switched on.  Only a trace of the real code that the specification rejects is
a violation.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

sys.path.insert(0, HERE)
from plan import PLAN, DESIGN  # noqa: E402

ERR = 3


class CheckError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", CGO_ENABLED=e.get("CGO_ENABLED", "0"))
    return e


def build(work, race=False):
    src = os.path.join(work, "harness")
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(HERE, "harness"), src)
        gm = os.path.join(src, "go.mod")
        s = open(gm).read()
        open(gm, "w").write(s.replace("=> /repo", "=> " + REPO))
    out = os.path.join(work, "h")
    p = subprocess.run(["go", "build", "-o", out, "."], cwd=src, env=env(), capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("building the harness against %s failed:\n%s" % (REPO, p.stderr[-3000:]))
    return out


def tlc(work, module, cfg=None, extra_env=None, workers=8, args=(), heap="6g", timeout=840):
    """Runs TLC; returns (output, generated, distinct)."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(extra_env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "-DTLA-Library=" + SPEC,
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(args) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout + p.stderr
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        m2 = re.search(r"Progress.*?(\d[\d,]*) states generated", out)
        if "The number of states generated: " in out:
            m2 = re.search(r"The number of states generated: (\d+)", out)
            return p.returncode, out, int(m2.group(1)), int(m2.group(1))
        raise CheckError("TLC gave no result on %s:\n%s" % (module, out[-3000:]))
    return p.returncode, out, int(m.group(1)), int(m.group(2))


def run_design(work, name, tier, cov):
    """Model-checks a design module. A failure here is an error of the
    specification, never a verdict about the code."""
    d = DESIGN[name]
    cfg = d.get(tier) or d["quick"]
    t0 = time.time()
    rc, out, gen, dist = tlc(work, d["module"], cfg, timeout=d.get("timeout", 600))
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("design check %s/%s failed:\n%s" % (name, cfg, out[-4000:]))
    cov["design"].append({"module": d["module"], "config": cfg, "states": dist, "transitions": gen,
                          "exhaustive": True, "checks": d["checks"], "wall_s": round(time.time() - t0, 1)})
    cov["states"] += dist
    cov["transitions"] += gen


def make_sched(work, name, tier, cov, seed):
    """Has TLC enumerate schedules from a generator module."""
    d = DESIGN[name]
    cfg = d.get(tier) or d["quick"]
    path = os.path.join(work, "sched_%s_%s.ndjson" % (name, tier))
    if os.path.exists(path):
        return path
    t0 = time.time()
    args = d.get("args", lambda tier, seed: [])(tier, seed)
    rc, out, gen, dist = tlc(work, d["module"], cfg, timeout=d.get("timeout", 600), args=args, workers=d.get("workers", 8))
    if rc != 0:
        raise CheckError("schedule generator %s/%s failed:\n%s" % (name, cfg, out[-4000:]))
    lines = sorted(set(re.findall(r'^"?SCHED (.*?)"?$', out, re.M)))
    if not lines:
        raise CheckError("schedule generator %s/%s printed no schedule:\n%s" % (name, cfg, out[-2000:]))
    random.Random(seed).shuffle(lines)  # a run that takes only some takes a sample
    with open(path, "w") as f:
        for l in lines:
            f.write(l.replace('\\"', '"') + "\n")
    cov["design"].append({"module": d["module"], "config": cfg, "states": dist, "transitions": gen,
                          "exhaustive": not args, "schedules": len(lines), "checks": d["checks"], "wall_s": round(time.time() - t0, 1)})
    cov["states"] += dist
    cov["transitions"] += gen
    return path


def run_harness(work, h, scen, seed, lo, hi, tier, out, sched=None, timeout=840, budget=0):
    """Drives the code through cases lo..hi. After `budget` seconds it stops
    with the cases that are complete by then."""
    cmd = [h, "run", "-scen", scen, "-seed", str(seed), "-from", str(lo), "-to", str(hi), "-tier", tier, "-out", out, "-budget", str(budget)]
    if sched:
        cmd += ["-sched", sched]
    try:
        p = subprocess.run(cmd, cwd=work, env=env(), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("harness timed out on %s" % scen)
    if p.returncode != 0:
        raise CheckError("harness failed on %s (rc %d):\n%s" % (scen, p.returncode, (p.stdout + p.stderr)[-3000:]))
    return json.loads(p.stdout.strip().splitlines()[-1])


def validate(work, module, prop, path, ntraces, cov):
    """TLC validates the traces in `path`; returns [(trace index, event index)]."""
    if ntraces == 0:
        return []
    rc, out, gen, dist = tlc(work, module, extra_env={"TRACES": path, "PROP": prop})
    acc = set(int(x) for x in re.findall(r'<<"ACCEPT", (\d+)', out))
    rej = {int(a): int(b) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)', out)}
    if rc != 0 or acc | set(rej) != set(range(1, ntraces + 1)) or acc & set(rej):
        raise CheckError("trace validation by %s is inconclusive (%d traces, %d accepted, %d rejected):\n%s"
                         % (module, ntraces, len(acc), len(rej), out[-3000:]))
    cov["trace_states"] += dist
    cov["trace_transitions"] += gen
    cov["states"] += dist
    cov["transitions"] += gen
    return sorted(rej.items())


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def match_known(prop, tr, at):
    for f in load_known():
        if f.get("property") != prop or f.get("status") != "known":
            continue
        m = f["match"]
        if all(tr["cfg"].get(k) == v for k, v in m.get("cfg", {}).items()) and \
           all(tr["ev"][at - 1].get(k) == v for k, v in m.get("event", {}).items() if at <= len(tr["ev"])):
            return f
    return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = PLAN[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
           "trace_states": 0, "trace_transitions": 0, "events": 0, "design": [], "runs": []}
    violations, known = [], []
    try:
        if tier == "replay":
            replay = json.load(open(sys.argv[3]))
            scen, s, i, _ = replay["id"].split("/")
            h = build(work)
            out = os.path.join(work, "t.ndjson")
            sched = None
            if replay.get("sched"):
                sched = os.path.join(work, "s.ndjson")
                open(sched, "w").write(json.dumps(replay["sched"]) + "\n")
                lo = 0
            else:
                lo = int(i)
            run_harness(work, h, scen, int(s), lo, lo + 1, "quick", out, sched)
            lines = open(out).read().splitlines()
            rej = validate(work, replay["module"], prop, out, len(lines), cov)
            say("rejected:" if rej else "accepted", rej)
            sys.exit(1 if rej else 0)

        h = build(work)
        spent = 0
        for name in plan.get("design", []) if not os.environ.get("VERIF_NODESIGN") else []:
            run_design(work, name, tier, cov)
        budget = plan.get("budget", {"quick": 420, "thorough": 660})[tier]
        for run in plan["runs"]:
            scen, module = run["scen"], run["module"]
            if run[tier] == 0:
                continue
            sched = make_sched(work, run["sched"], tier, cov, seed) if "sched" in run else None
            schedlines = open(sched).read().splitlines() if sched else None
            total = max(1, int(run[tier] * float(os.environ.get("VERIF_SCALE", "1"))))
            if sched:
                total = min(total, len(schedlines))
            batch = run.get("batch", 4000)
            lo, done = 0, 0
            tr0 = time.time()
            while lo < total:
                if lo > 0 and time.time() - t0 > budget:
                    break
                # a small first batch shows what is plainly broken soon
                hi = min(total, lo + (batch if lo or total <= 400 else min(batch, 100 + total // 12)))
                out = os.path.join(work, "%s_%d.ndjson" % (scen, lo))
                h0 = time.time()
                left = (400 if tier == "quick" else 700) - spent
                run_harness(work, h, scen, seed, lo, hi, tier, out, sched, budget=int(max(30, left)))
                spent += time.time() - h0
                lines = open(out).read().splitlines()
                rej = validate(work, module, prop, out, len(lines), cov)
                cov["traces_validated_against_impl"] += len(lines)
                done += len(lines)
                if lo == 0:
                    for l in lines[:1]:
                        cov["samples"].append(json.loads(l) if len(l) < 6000 else {"id": json.loads(l)["id"], "text": l[:3000]})
                cov["events"] += sum(l.count('"e":') for l in lines)
                for ti, at in rej:
                    tr = json.loads(lines[ti - 1])
                    f = match_known(prop, tr, at)
                    if f:
                        known.append((f, tr["id"]))
                        continue
                    rp = os.path.join(HERE, "evidence", "replays", "%s-%s.json" % (prop, tr["id"].replace("/", "_")))
                    if len(violations) < 20:
                        i = int(tr["id"].split("/")[2])
                        json.dump({"property": prop, "module": module, "id": tr["id"], "rejected_event_index": at,
                                   "rejected_event": tr["ev"][at - 1] if at <= len(tr["ev"]) else None,
                                   "sched": json.loads(schedlines[i]) if sched else None, "trace": tr}, open(rp, "w"))
                    violations.append((rp, tr["id"], at))
                os.remove(out)
                lo = hi
                if violations:
                    break
            cov["runs"].append({"scenario": scen, "module": module, "traces": done, "wall_s": round(time.time() - tr0, 1)})
            if violations:
                break
        ev = {"property": prop, "tier": "thorough" if tier == "thorough" else "quick", "seed": seed, "level": plan.get("level", "model_checking"),
              "coverage": cov, "assumptions": plan.get("assumptions", []),
              "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
        tmp = os.path.join(HERE, "evidence", prop + ".json.tmp%d" % os.getpid())
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
        for fid in sorted(set(f["id"] for f, _ in known)):
            f = [f for f, _ in known if f["id"] == fid][0]
            say("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, f["what"], sum(1 for g, _ in known if g["id"] == fid)))
        if violations:
            for rp, tid, at in violations[:5]:
                say("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, HERE)))
                say("  trace %s rejected at event %d" % (tid, at))
            say("%d of %d traces rejected" % (len(violations), cov["traces_validated_against_impl"]))
            sys.exit(1)
        say("OK property=%s traces=%d events=%d states=%d wall=%.1fs" %
            (prop, cov["traces_validated_against_impl"], cov["events"], cov["states"], time.time() - t0))
        sys.exit(0)
    except CheckError as e:
        say("CHECK-ERROR property=%s: %s" % (prop, e))
        sys.exit(ERR)
    finally:
        if os.environ.get("VERIF_KEEP"):
            say("work dir", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
