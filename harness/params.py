"""C24: constructs SimulationParams from every combination enumerated by MC_Params.tla."""

import json
import os
import numpy as np
from common import call, num
from tvemoves_rufbad.simulation import SimulationParams

FIELDS = ["initial_temperature", "search_radius", "fps", "scale", "regularization", "refinement_factor"]


def scenarios(prop, tier, seed, work):
    cases = []
    seen = set()
    for line in open(os.path.join(work, "MC_Params.cases")):
        if line not in seen:
            seen.add(line)
            cases.append(json.loads(line))
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    n = 40
    return [
        {"id": f"params-{k}", "spec": "TraceParams", "cases": cases[k::n]} for k in range(n)
    ]


def _number(s, integer=False):
    if s == "none":
        return None
    return int(s) if integer or "." not in s and "e" not in s else float(s)


def _opt(x):
    return "none" if x is None else num(x)


def run(scn):
    events = []
    for k, c in enumerate(scn["cases"]):
        args = {f: _number(c[f]) for f in FIELDS}
        if k % 2 and args["fps"] is not None:
            args = {f: (float(v) if v is not None and f != "refinement_factor" else v) for f, v in args.items()}
        if k % 5 == 4:   # as they come out of an array
            args = {f: v if v is None else np.int64(v) if isinstance(v, int) else np.float64(v) for f, v in args.items()}
        ok, p = call(lambda: SimulationParams(**args))
        e = {"ev": "params", "given": c, "outcome": "accepted" if ok else "rejected"}
        if not ok:
            e["error"] = p
        else:
            m, t = p.mechanical_step_params(), p.thermal_step_params()
            e["mech"] = {
                "initial_temperature": num(m.initial_temperature),
                "search_radius": num(m.search_radius),
                "fps": num(m.fps),
                "regularization": _opt(m.regularization),
            }
            e["therm"] = {
                "search_radius": num(t.search_radius),
                "fps": num(t.fps),
                "regularization": _opt(t.regularization),
            }
            e["params"] = {"scale": num(p.scale), "refinement_factor": _opt(p.refinement_factor)}
        events.append(e)
    return {"events": events}
