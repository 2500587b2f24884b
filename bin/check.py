#!/usr/bin/env python3
"""Decide one property: explore the TLA+ specification with TLC, replay every behaviour on the code.

    bin/check.py C05            VERIF_TIER = quick | thorough, VERIF_SEED = n
    bin/check.py --replay FILE  run one saved behaviour again

exit 0: held on everything explored; 1: VIOLATION line(s); 2: the check itself failed.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from jobs import CHECKS  # noqa: E402

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPU = max(1, min(8, os.cpu_count() or 4))


class Broken(Exception):
    pass


class Crash(Exception):
    """the code under test killed its process or did not return"""


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(ROOT, "target"), CARGO_NET_OFFLINE="true")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(ROOT, "harness/Cargo.toml")],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken("building the harness against /repo failed:\n" + p.stdout[-4000:])
    return os.path.join(ROOT, "target/debug/conform")


def cfg_text(job, extra):
    c = dict(job.get("const", {}))
    c.setdefault("SIM", "TRUE" if job["mode"] == "sim" else "FALSE")
    c.update(extra)
    lines = ["SPECIFICATION Spec", "CONSTANTS"]
    lines += ["  %s = %s" % kv for kv in c.items()]
    lines.append("INVARIANTS Emit %s" % " ".join(job.get("inv", ["Laws"])))
    lines.append("CHECK_DEADLOCK FALSE")
    return "\n".join(lines) + "\n"


def tlc(job, tag, work, seed, num, extra=None, env=None):
    """one TLC process; returns (event lines, states, distinct)"""
    d = os.path.join(work, tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in glob.glob(os.path.join(ROOT, "spec/*.tla")):
        shutil.copy(f, d)
    open(os.path.join(d, "M.cfg"), "w").write(cfg_text(job, extra or {}))
    cmd = ["java", "-XX:+UseSerialGC", "-Xss64m", "-Xmx3g", "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC",
           "-workers", "1", "-metadir", os.path.join(d, "states"), "-config", "M.cfg", "-noGenerateSpecTE"]
    if job["mode"] == "sim":
        cmd += ["-simulate", "num=%d" % num, "-depth", str(job["depth"] + 1), "-seed", str(seed)]
    cmd.append(job["mod"] + ".tla")
    e = dict(os.environ)
    e.update(env or {})
    log = os.path.join(d, "log")
    with open(log, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=job.get("timeout", 3000))
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on %s (%s)" % (job["mod"], tag))
    events, rest = [], []
    with open(log) as f:
        for line in f:
            if line.startswith('"@@'):
                events.append(json.loads(line)[2:])
            else:
                rest.append(line)
    rest = "".join(rest)
    if p.returncode != 0 or "Error:" in rest:
        raise Broken("TLC failed on %s (%s):\n%s" % (job["mod"], tag, (rest[rest.find("Error:"):] if "Error:" in rest else rest)[:2500]))
    m = re.findall(r"([\d,]+) states generated", rest) or re.findall(r"number of states generated: ([\d,]+)", rest)
    states = int(m[-1].replace(",", "")) if m else 0
    m = re.findall(r"([\d,]+) distinct states found", rest)
    distinct = int(m[-1].replace(",", "")) if m else None
    shutil.rmtree(d, ignore_errors=True)
    return events, states, distinct


def harness(binary, what, events, work, tag):
    ev = os.path.join(work, tag + ".ndjson")
    with open(ev, "w") as f:
        f.write("\n".join(events) + "\n")
    out = os.path.join(work, tag + ".out")
    p = subprocess.run([binary, what, ev, out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if p.returncode == 3 or p.returncode < 0:
        raise Crash(died(binary, what, events, ev, out, p, work, tag))
    if p.returncode != 0:
        raise Broken("replay machine: " + p.stderr[-3000:])
    return ev, out


def died(binary, what, events, ev, out, p, work, tag):
    """the process running the code was killed or did not come back from a call: which one?"""
    m = re.search(r"STUCK (\d+)", p.stderr)
    if m:
        line, how = int(m.group(1)), "no return within 30 s"
    else:
        pr = os.path.join(work, tag + ".progress")
        subprocess.run([binary, what, ev, out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, PROGRESS=pr))
        text = open(pr).read().strip() if os.path.exists(pr) else ""
        if not text:
            raise Broken("replay machine died before the first call: " + p.stderr[-1000:])
        line, how = int(text), "process killed by signal %d" % -p.returncode
    start = max(i for i in range(line) if '"op":"new"' in events[i])
    prog = [json.loads(e) for e in events[start:line]]
    return {"op": prog[-1]["op"], "type": "?", "line": line, "args": [json.dumps(a) for a in prog[-1]["args"]], "got": how,
            "expected": prog[-1].get("exp", "a result"), "program": prog}


def shard(job, i, work, seed, num, binary):
    try:
        return shard_run(job, i, work, seed, num, binary)
    except Crash as c:
        return {"violations": [c.args[0]], "n_violations": 1, "known": {}, "per_op": {}, "programs": 1, "states": 0, "distinct": 0,
                "compared": 1, "steps": 1, "n_events": 1, "n_traces": 1, "samples": [], "digest": "", "tag": "crashed"}


def shard_run(job, i, work, seed, num, binary):
    """explore, replay, (validate); returns a result dict"""
    tag = "%s-%s-%d" % (job["mod"], job.get("name", "x"), i)
    events, states, distinct = tlc(job, tag, work, seed, num)
    if not events:
        raise Broken("no events from %s" % tag)
    if "validate" in job:
        # the code's own trace, checked step by step against the specification
        _, tr = harness(binary, "record", events, work, tag + "-rec")
        v = job["validate"]
        ev2, s2, _ = tlc(v, tag + "-val", work, seed, 0, env={"TRACE": os.path.abspath(tr)})
        states += s2
        os.remove(tr)
        events = ev2
        if not events:
            raise Broken("no events from %s" % v["mod"])
    ev, out = harness(binary, "run", events, work, tag)
    r = json.load(open(out))
    r["states"], r["distinct"], r["n_events"] = states, distinct, len(events)
    r["n_traces"] = sum(1 for e in events if '"op":"new"' in e)
    r["samples"] = [json.loads(e) for e in events[1:4]]
    r["digest"] = hashlib.sha256("\n".join(events).encode()).hexdigest()
    r["tag"] = tag
    os.remove(ev)
    os.remove(out)
    return r


def known_findings():
    known = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


def main():
    if sys.argv[1] == "--replay":
        binary = build()
        saved = json.load(open(sys.argv[2]))
        work = os.path.join(ROOT, ".work", "replay")
        os.makedirs(work, exist_ok=True)
        try:
            _, out = harness(binary, "run", [json.dumps(e, separators=(",", ":")) for e in saved["program"]], work, "replay")
        except Crash as c:
            print(json.dumps(c.args[0], indent=1))
            return 1
        r = json.load(open(out))
        print(json.dumps(r["violations"], indent=1))
        return 1 if r["n_violations"] else 0

    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = os.path.join(ROOT, ".work", "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    check = CHECKS[pid]
    binary = build()

    tasks = []
    for k, job in enumerate(check["jobs"]):
        job = dict(job, name="%s%d" % (job.get("name", "j"), k))
        if job["mode"] == "bfs":
            if job.get("tier", tier) == tier:
                tasks.append((job, 0, seed, 0))
            continue
        n = job["num"] if tier == "quick" else job["num"] * job.get("deep", 20)
        sh = job.get("shards", 1) if tier == "quick" else max(4, job.get("shards", 1) * 2)
        for i in range(sh):
            tasks.append((job, i, (seed * 7919 + k * 101 + i) * 31 + (0 if tier == "quick" else 17), max(1, n // sh)))
    res = []
    with cf.ThreadPoolExecutor(CPU) as ex:
        fs = [ex.submit(shard, job, i, work, s, num, binary) for (job, i, s, num) in tasks]
        for f in fs:
            res.append(f.result())

    known = known_findings()
    viol, kf, per_op = [], {}, {}
    for r in res:
        viol += r["violations"]
        for k, v in r["known"].items():
            kf.setdefault(k, v)
        for k, v in r["per_op"].items():
            per_op[k] = per_op.get(k, 0) + v
    nviol = sum(r["n_violations"] for r in res)
    lines, seen = [], set()
    for k, v in sorted(kf.items()):
        if (pid, k) in known:
            print("KNOWN-FINDING: property=%s %s (%s; %d times, e.g. %s)" % (pid, k, known[(pid, k)], v["count"], v["sample"]))
        else:
            nviol += 1
            lines.append(("unlisted finding " + k, {"program": [], "finding": k, "sample": v}))
    for v in viol:
        key = (v["op"], v["type"])
        if key in seen and len(seen) >= 1:
            continue
        seen.add(key)
        lines.append(("%s on %s" % (v["op"], v["type"]), v))
    for what, v in lines[:8]:
        h = hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(ROOT, "replays", "%s-%s.json" % (pid, h))
        json.dump(v, open(path, "w"), indent=1)
        if "got" in v:
            print("  %s: %s(%s) = %s, the specification demands %s" % (
                v["type"], v["op"], ", ".join(v["args"]), v["got"], json.dumps(v["expected"])[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))

    traces = sum(r["programs"] for r in res)
    states = sum(r["states"] for r in res)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": states - sum(r["n_traces"] for r in res) if states else 0,
            "distinct_states_of_exhaustive_runs": sum(r["distinct"] or 0 for r in res),
            "traces_validated_against_impl": traces,
            "comparisons_with_impl": sum(r["compared"] for r in res),
            "calls_into_impl": sum(r["steps"] for r in res),
            "comparisons_per_operation": per_op,
            "exhaustive": all(j["mode"] == "bfs" for j in check["jobs"]),
            "runs": [{"run": r["tag"], "states": r["states"], "behaviours": r["n_traces"], "events": r["n_events"],
                      "compared": r["compared"], "violations": r["n_violations"]} for r in res],
            "samples": [s for r in res[:6] for s in r["samples"][:2]],
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    ev["coverage"]["transitions"] = max(0, ev["coverage"]["transitions"])
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("%s [%s]: %d states, %d behaviours replayed, %d comparisons, %d violations, %.1fs" % (
        pid, tier, states, traces, ev["coverage"]["comparisons_with_impl"], nviol, time.time() - t0))
    if sum(r["compared"] for r in res) == 0:
        raise Broken("nothing was compared")
    return 1 if nviol else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("CHECK BROKEN: %s" % e)
        sys.exit(2)
