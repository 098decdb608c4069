"""C09: drives single mechanical and thermal steps through the operation sequences enumerated by
MC_StepObj.tla and records what they hold."""

import json
import os
import numpy as np
from bodies import Body, any_body
from common import Timeout, dress, nested, num, nums, rng
from energy import Random
from sim import Layout, Posed, ScriptedSolver, poly
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams

FACTORS = [-1.000001, -0.999999, -0.5, 0.5, 0.999999, 1.000001]


def scenarios(prop, tier, seed, work):
    r = rng(prop, seed)
    cases = sorted({l for l in open(os.path.join(work, "MC_StepObj.cases"))})
    r.shuffle(cases)
    cases = [json.loads(c) for c in cases]
    # sequences that solve twice or more say most
    cases.sort(key=lambda c: -min(2, c["ops"].count("solve")))
    thorough = tier == "thorough"
    res = []
    want = {("mech", "plain"): 400, ("heat", "plain"): 400, ("mech", "c1"): 80, ("heat", "c1"): 80} if thorough else {
        ("mech", "plain"): 60, ("heat", "plain"): 60, ("mech", "c1"): 14, ("heat", "c1"): 14}
    for (kind, form), n in want.items():
        mine = [c for c in cases if c["kind"] == kind]
        take = mine[: n // 2] + r.sample(mine, n - n // 2)
        for k, c in enumerate(take):
            res.append({"id": f"{form}-{kind}-{k}", "form": form, "kind": kind, "ops": c["ops"] + ["solve"], "cost": 20 if form == "c1" else 1})
        res.append({"id": f"{form}-{kind}-create", "form": form, "kind": kind, "ops": [], "create": 1})
    for s in res:
        s.update(spec="TraceStep", seed=seed, limit=300)
    return res


def wrong_shapes(good, other):
    """Shapes that do not fit."""
    n = good[0]
    res = [(n + 1,) + good[1:], (n - 1,) + good[1:], (2 * n,) + good[1:], good + (1,), (int(np.prod(good)),), (1,) + good, ()]
    if len(good) > 1:
        res += [good[1:] + (n,), (n,), (n, 3), (n, 1), (n,) + good[1:-1] + (good[-1] - 1,), (n, 6), (n, 12), (n, 6, 2), (n, 2)]
    else:
        res += [(n, 2), (n, 6), (1, n)]
    res += [other]
    return sorted({s for s in res if s != good})


def run(scn):
    r = rng(scn["id"], scn["seed"])
    form, kind = scn["form"], scn["kind"]
    if form == "plain":
        w, h, s = r.choice([(1, 1, 1), (1, 1, 0.5), (0.5, 1, 0.5)])
    else:
        w, h, s = r.choice([(1, 1, 1), (1, 1, 1), (0.5, 0.5, 0.5)])
    dom = RectangleDomain(w, h, r.choice([None, None, "left", ["lower"]]) if kind == "mech" else None)
    if r.random() < 0.3:
        dom = Body(**(any_body(r, 4 if form == "plain" else 1) | ({"fixed": []} if form == "c1" or kind == "heat" else {})))
    grid = dom.grid(s)
    refined = dom.refine(grid, r.choice([1, 2])) if form == "c1" else None
    data = Random(r, grid, refined)
    data.held = np.array([True]) if kind == "mech" else None      # stay close to the identity
    data.hold = lambda y: y
    fps, radius, theta0 = r.choice([1, 7, 2.5, 30]), r.choice([0.5, 0.03, 4]), r.choice([0, 0.5, 1.25])
    reg = r.choice([1, 0.25]) if form == "c1" else None
    layout = Layout(kind, form, grid, refined)
    loads = form == "plain"
    g = [[[r.randint(-8, 8) / 8, r.choice([0, 1, 2]), r.choice([0, 1]), r.choice([0, 1])] for _ in range(2)] if loads else [] for _ in range(2)]
    ext = [[r.randint(1, 16) / 8, r.choice([0, 1, 2]), 0, 0] for _ in range(2)] if loads else []
    traction = lambda t, x, y: [poly(q)(t, x, y) for q in g]
    external = lambda t: poly(ext)(t)
    ny, nt = len(grid.points), len((refined or grid).points)
    yshape = (ny, 2) if form == "plain" else (ny, 2, 6)
    events = []

    def make(prev_y, y, prev_theta, fine=refined):
        if kind == "mech":
            return mechanical_step(ScriptedSolver(), grid, MechanicalStepParams(theta0, radius, fps, reg), fine, traction)
        return thermal_step(ScriptedSolver(), grid, prev_y, y, prev_theta, ThermalStepParams(radius, fps, reg), external, fine)

    def attempt(what, f):
        try:
            f()
            ok = True
        except Timeout:
            raise
        except Exception:  # pylint: disable=broad-except
            ok = False
        events.append({"ev": "create", "what": what, "ok": ok})

    good = data.deformation(), data.deformation(), data.temperature()
    if scn.get("create"):
        if form == "c1":
            attempt("no refined grid", lambda: make(*good, None))
        if kind == "heat":
            for k, name in enumerate(("prev_y", "y", "prev_theta")):
                shape = yshape if k < 2 else (nt,)
                for bad in wrong_shapes(shape, (nt,) if k < 2 else (ny,)):
                    a = list(good)
                    a[k] = np.ones(bad)
                    attempt(f"{name} of shape {bad}", lambda a=a: make(*a))
        if not events:
            events.append({"ev": "create", "what": "nothing to reject", "ok": False})
        return {"form": form, "events": events}

    def read():
        got = {"prev_y": step.prev_y(), "y": step.y(), "prev_theta": step.prev_theta()}
        if kind == "heat":
            got["theta"] = step.theta()
        events.append({"ev": "read", **{k: nested(v) for k, v in got.items()}})
        for v in got.values():     # what is handed out is not connected to the step
            v[...] = -7

    given = [dress(r, x) for x in good]
    step = make(*given)
    events.append({"ev": "new", "kind": kind, "n": nt, "theta0": num(theta0), "prev_y": nested(good[0]), "y": nested(good[1]), "prev_theta": nested(good[2])})
    for x in given:                # nor what was handed in
        x[...] = x + 3.5
    read()

    def solve(model):
        p = Posed(model, layout)
        vs = p.vars
        fixed = np.array([v.fixed for v in vs])
        raw = (data.deformation(), data.deformation()) if kind == "mech" else (data.temperature(), data.temperature())
        a, b = (np.where(fixed, p.start, x.reshape(-1)) for x in raw)
        centre = np.asarray(step.prev_y() if kind == "mech" else step.prev_theta()).reshape(-1)
        e = {"ev": "solve", "start": nested(p.shaped(p.start)), "fixed": fixed.tolist(),
             "admissible": [[bool(p.admits(k, c + f * radius)) for f in FACTORS] for k, c in enumerate(centre)]}
        if len(events) < 40:
            e["probe"] = {"a": nested(p.shaped(a)), "b": nested(p.shaped(b)), "diff": num(p.difference(a, b))}
        x = data.deformation() if kind == "mech" else data.temperature()
        x = np.where(fixed, p.start, x.reshape(-1))
        for v, c in zip(vs, x):
            if not v.fixed:
                v.set_value(float(c), skip_validation=True)
        e["answer"] = nested(p.shaped(x))
        events.append(e)

    for op in scn["ops"]:
        bad = op.startswith("bad_")
        what = op[4:] if bad else op
        if op == "solve":
            ScriptedSolver.now = solve
            step.solve()
        elif op == "time":
            t = r.randint(1, 40) / 8
            (step.update_boundary_traction if kind == "mech" else step.update_external_temperature)(t)
            events.append({"ev": "time", "t": num(t)})
        else:
            x = np.array(data.temperature() if what == "prev_theta" else data.deformation())
            if what == "prev_theta" and r.random() < 0.2:
                x = np.array([r.randint(0, 3) for _ in x])     # whole numbers
            if not bad and r.random() < 0.3:       # what is held already
                held = [step.prev_theta] + ([step.theta] if kind == "heat" else []) if what == "prev_theta" else [step.prev_y, step.y]
                x = np.array(r.choice(held[:1] * 2 + held)())
            x = dress(r, x)
            shapes = wrong_shapes(x.shape, (ny,) if what == "prev_theta" else (nt,)) if bad else [x.shape]
            for shape in r.sample(shapes, min(len(shapes), 5)):
                y = x if not bad else np.ones(shape) * 0.25
                e = {"ev": "update", "what": what, "bad": bad, "data": nested(y)}
                try:
                    getattr(step, "update_" + what)(y)
                    e["ok"] = True
                except Timeout:
                    raise
                except Exception:  # pylint: disable=broad-except
                    e["ok"] = False
                events.append(e)
                if y.shape:
                    y[...] = y + 3.5
        read()
    tr = {
        "form": form, "events": events, "fps": num(fps), "reg": num(reg) if reg is not None else "0", "r": num(radius), "factors": nums(FACTORS),
        "points": [nums(p) for p in grid.points], "triangles": [[int(x) for x in t] for t in grid.triangles],
        "outer": [[int(x) for x in t] for t in (refined or grid).boundary.edges],
        "free": [[int(x) for x in t] for t in grid.neumann_boundary.edges],
        "traction": [[[num(t[0]), t[1], t[2], t[3]] for t in q] for q in g], "external": [[num(t[0]), t[1], t[2], t[3]] for t in ext],
    }
    if refined is not None:
        tr["fine_points"] = [nums(p) for p in refined.points]
        tr["fine_triangles"] = [[int(x) for x in t] for t in refined.triangles]
    return tr
