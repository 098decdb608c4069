"""Runs the scenarios of one property against the code in /repo and records their traces.

usage: driver.py PROPERTY WORKDIR TIER SEED [SCENARIO_ID]

Writes WORKDIR/<trace module>.ndjson, one line per scenario, and WORKDIR/harness.json.
"""

import importlib
import json
import multiprocessing as mp
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common  # noqa: E402

MODULES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "modules.json")))

_mod = None


def _run(scn):
    limit = scn.get("limit", 120)
    try:
        with common.time_limit(limit):
            tr = _mod.run(scn)
    except BaseException as e:  # pylint: disable=broad-except
        if isinstance(e, KeyboardInterrupt):
            raise
        tr = {"events": [{"ev": "failed", "what": common.describe(e)}]}
    tr["id"] = scn["id"]
    if not tr["events"]:
        tr["events"] = [{"ev": "failed", "what": "nothing observed"}]
    return scn["spec"], tr


def main():
    os.environ.setdefault("TQDM_DISABLE", "1")
    prop, work, tier, seed = sys.argv[1:5]
    only = sys.argv[5] if len(sys.argv) > 5 else None
    global _mod
    _mod = importlib.import_module(MODULES[prop])
    scns = _mod.scenarios(prop, tier, int(seed), work)
    ids = [s["id"] for s in scns]
    assert len(ids) == len(set(ids)), "scenario ids must be unique"
    if only:
        scns = [s for s in scns if s["id"] == only]
    # expensive scenarios first, so that the pool is evenly loaded
    scns.sort(key=lambda s: -s.get("cost", 1))
    files = {}
    events = 0
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for spec, tr in pool.imap_unordered(_run, scns, chunksize=1 if len(scns) < 2000 else 16):
            if spec not in files:
                files[spec] = open(os.path.join(work, spec + ".ndjson"), "w")
            files[spec].write(json.dumps(tr) + "\n")
            events += len(tr["events"])
    for f in files.values():
        f.close()
    with open(os.path.join(work, "harness.json"), "w") as f:
        json.dump(
            {
                "scenarios": len(scns),
                "events": events,
                "specs": sorted(files),
                "samples": [{k: v for k, v in s.items()} for s in scns[:3]],
            },
            f,
        )


if __name__ == "__main__":
    main()
