#!/usr/bin/env python3
"""Decides one property: model checks its specification, records traces of the code in /repo and
validates them against the specification.

usage: check.py PROPERTY [--tier quick|thorough] [--replay SCENARIO_ID] [--keep]
       check.py --setup

Exit 0: the property held on everything explored. Exit 1 (with a VIOLATION line): it is broken.
"""

import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PYTHON = "/opt/venv/bin/python"
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)


def setup():
    """Compile the Java part of module Rat if necessary."""
    os.makedirs(BUILD, exist_ok=True)
    src = sorted(
        os.path.join(HERE, "java", f) for f in os.listdir(os.path.join(HERE, "java")) if f.endswith(".java")
    )
    target = os.path.join(BUILD, "Rat.class")
    if os.path.exists(target) and all(os.path.getmtime(s) <= os.path.getmtime(target) for s in src):
        return
    subprocess.run(["javac", "-nowarn", "-d", BUILD, "-cp", JARS] + src, check=True)


def java(module, cfg, work, workers, env=None, extra=(), heap="6g", timeout=800):
    meta = os.path.join(work, "meta-" + module)
    cmd = [
        "java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
        "-cp", f"{BUILD}:{JARS}", "-Djava.io.tmpdir=" + work,
        "-DTLA-Library=" + SPEC, "tlc2.TLC",
        "-workers", str(workers), "-metadir", meta, "-nowarning", "-config", cfg, *extra, module + ".tla",
    ]
    e = dict(os.environ)
    e.update(env or {})
    out = os.path.join(work, module + ".out")
    with open(out, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found")


def counts(out):
    gen = dist = 0
    for line in open(out, errors="replace"):
        m = STATES.match(line)
        if m:
            gen, dist = int(m.group(1)), int(m.group(2))
    return gen, dist


def payload(line, word):
    """The JSON printed as PrintT("WORD " \\o ToJson(x))."""
    line = line.strip()
    if line.startswith('"' + word + " ") and line.endswith('"'):
        return json.loads(line)[len(word) + 1:]
    return None


class MachineryError(Exception):
    pass


def model_check(name, work, tier, seed):
    """Model check spec/<name>.tla with <name>.cfg (or <name>_thorough.cfg)."""
    cfg = name + ".cfg"
    if tier == "thorough" and os.path.exists(os.path.join(SPEC, name + "_thorough.cfg")):
        cfg = name + "_thorough.cfg"
    text = open(os.path.join(SPEC, cfg)).read()
    extra = re.findall(r"^\\\* TLC: (.*)$", text, re.M)
    extra = extra[0].split() if extra else []
    extra = [x.replace("$SEED", str(seed)) for x in extra]
    rc, out = java(name, cfg, work, 4, {"WORK": work, "SEED": str(seed)}, extra, timeout=800 if tier == "quick" else 7200)
    body = open(out, errors="replace").read()
    if rc != 0 and not ("-simulate" in extra and "Error:" not in body):
        raise MachineryError(f"TLC on {name}: exit {rc}\n" + body[-3000:])
    cases = os.path.join(work, name + ".cases")
    with open(cases, "w") as f:
        for line in body.splitlines():
            p = payload(line, "CASE")
            if p is not None:
                f.write(p + "\n")
    gen, dist = counts(out)
    return {"model": name, "config": cfg, "states": dist, "transitions": gen}


def validate(module, trace, work, depth=0):
    """Check the recorded traces in file `trace` against spec/<module>.tla.

    Returns (verdicts, distinct states, generated states)."""
    ids = [json.loads(l)["id"] for l in open(trace)]
    cfg = module + ".cfg" if os.path.exists(os.path.join(SPEC, module + ".cfg")) else "Trace.cfg"
    rc, out = java(module, cfg, work, 8, {"TRACE": trace})
    verdicts = {}
    body = open(out, errors="replace").read()
    for line in body.splitlines():
        p = payload(line, "VERDICT")
        if p is not None:
            v = json.loads(p)
            verdicts[v["id"]] = v
    gen, dist = counts(out)
    if "Semantic errors" in body or "Parsing or semantic analysis failed" in body or "Starting..." not in body:
        raise MachineryError(f"TLC on {module}:\n" + body[-3000:])
    missing = [i for i in ids if i not in verdicts]
    if missing:
        # one of these traces stopped TLC: find it
        errors = [l for l in body.splitlines() if "rror" in l][:4]
        if len(ids) == 1:
            verdicts[ids[0]] = {
                "id": ids[0], "event": 0,
                "failed": "the recorded trace cannot be interpreted by the specification: " + " | ".join(errors)[:600],
                "tlc": body[-1500:],
            }
        else:
            lines = {json.loads(l)["id"]: l for l in open(trace)}
            half = (len(missing) + 1) // 2
            for k, part in enumerate((missing[:half], missing[half:])):
                if not part:
                    continue
                sub = f"{trace}.{depth}{k}"
                with open(sub, "w") as f:
                    f.writelines(lines[i] for i in part)
                v, d, g = validate(module, sub, work, depth + 1)
                verdicts.update(v)
                dist += d
                gen += g
                if any("cannot be interpreted" in x["failed"] for x in v.values()):
                    break
    return verdicts, dist, gen


def known_findings(prop):
    """Lines  finding: property=<id> scenario=<regex> clause=<regex> :: <what fails>"""
    res = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) clause=\[(.*?)\] :: (.*)", line)
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return res


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        setup()
        return 0
    from registry import CHECKS

    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[prop]
    t0 = time.time()
    setup()
    work = os.path.join(HERE, "work", f"{prop}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    try:
        return decide(prop, chk, tier, seed, work, replay, t0)
    finally:
        if "--keep" not in args:
            shutil.rmtree(work, ignore_errors=True)
            try:
                os.rmdir(os.path.join(HERE, "work"))
            except OSError:
                pass


def decide(prop, chk, tier, seed, work, replay, t0):
    # 1. the specification itself
    with ThreadPoolExecutor(4) as ex:
        models = list(ex.map(lambda m: model_check(m, work, tier, seed), chk["models"]))

    # 2. record traces of the code
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR=work, HOME=work)
    log = os.path.join(work, "harness.log")
    cmd = [PYTHON, os.path.join(HERE, "harness", "driver.py"), prop, work, tier, str(seed)] + ([replay] if replay else [])
    with open(log, "w") as f:
        rc = subprocess.run(cmd, cwd=work, env=env, stdout=f, stderr=subprocess.STDOUT,
                            timeout=840 if tier == "quick" else 14000).returncode
    violations = []
    known = {}
    if rc != 0:
        tail = open(log, errors="replace").read()[-3000:]
        violations.append({"id": "harness", "event": 0, "failed": "the code cannot be driven at all", "log": tail})
        meta = {"scenarios": 0, "events": 0, "specs": [], "samples": []}
    else:
        meta = json.load(open(os.path.join(work, "harness.json")))

    # 3. validate them against the specification
    accepted = 0
    states = transitions = 0
    traces = {}
    for spec in meta["specs"]:
        trace = os.path.join(work, spec + ".ndjson")
        verdicts, dist, gen = validate(spec, trace, work)
        states += dist
        transitions += gen
        for line in open(trace):
            tr = json.loads(line)
            v = verdicts.get(tr["id"])
            if v is None:   # a trace before it stopped TLC, see below
                continue
            if v["failed"] == "ok":
                accepted += 1
                continue
            v["spec"] = spec
            k = v["event"]
            v["observed"] = tr["events"][k - 1] if 0 < k <= len(tr["events"]) else None
            v["trace"] = {a: b for a, b in tr.items() if a != "events"}
            for scn_re, clause_re, what in known_findings(prop):
                if scn_re.fullmatch(tr["id"]) and clause_re.fullmatch(v["failed"]):
                    known.setdefault(what, 0)
                    known[what] += 1
                    break
            else:
                violations.append(v)

    # 4. report
    for what in sorted(known):
        print(f"KNOWN-FINDING: property={prop} {what}")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": chk["level"],
        "coverage": {
            "states": sum(m["states"] for m in models) + states,
            "transitions": sum(m["transitions"] for m in models) + transitions,
            "traces_validated_against_impl": accepted,
            "samples": [json.loads(json.dumps(s)[:4000]) if len(json.dumps(s)) < 4000 else {"id": s["id"], "abridged": json.dumps(s)[:1500]} for s in meta["samples"]],
            "models": models,
            "recorded_traces": meta["scenarios"],
            "recorded_events": meta["events"],
            "known_findings": sum(known.values()),
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if not violations:
        print(f"{prop}: held on {meta['scenarios']} recorded traces ({meta['events']} events), "
              f"{evidence['coverage']['states']} model states, {evidence['wall_s']} s")
        return 0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", prop + ".json")
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "tier": tier, "violations": violations[:50],
                   "rerun": f"VERIF_SEED={seed} python3 {HERE}/check.py {prop} --tier {tier} --replay {violations[0]['id']}"}, f, indent=1)
    for v in violations[:10]:
        print(f"  {v['id']}, event {v['event']}: {v['failed']}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1


if __name__ == "__main__":
    try:
        sys.exit(main())
    except MachineryError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
