"""C28: draws grids and domains on new and existing axes, in the orders enumerated by MC_Drawing."""

import json
import os
import numpy as np
from bodies import Body, any_body
from common import num, nums, rng
from matplotlib import patches
from matplotlib import pyplot as plt
from matplotlib.collections import LineCollection, PathCollection
from tvemoves_rufbad.domain import RectangleDomain


def scenarios(prop, tier, seed, work):
    r = rng(prop, seed)
    programs = [json.loads(l) for l in sorted(set(open(os.path.join(work, "MC_Drawing.cases"))))]
    res = []
    chosen = r.sample(programs, min(len(programs), 2000 if tier == "thorough" else 200))
    # a grid on an axis that points the other way
    turned = [q for q in programs if any(o["op"] == "turn" and any(p["op"] == "on" and p["on"] == o["on"] and p["t"] <= 3 for p in q[k:]) for k, o in enumerate(q))]
    chosen += r.sample(turned, min(len(turned), 1000 if tier == "thorough" else 80))
    for k, q in enumerate(chosen):
        res.append({"id": f"drawing-{k}", "spec": "TraceDrawing", "ops": q, "seed": r.randrange(1 << 30),
                    "size": r.choice([1, 0.5, 3, 0.25, 1e-3, 40]), "body": any_body(r, 6) if k % 3 == 1 else None})
    # drawings with many vertices
    shown = [q for q in programs if any(o["t"] == 1 for o in q) and len(q) > 1]
    for k, q in enumerate(r.sample(shown, min(len(shown), 20 if tier == "thorough" else 4))):
        res.append({"id": f"drawing-large-{k}", "spec": "TraceDrawing", "ops": q[:3], "seed": r.randrange(1 << 30), "size": r.choice([1, 0.25, 3]),
                    "large": [(24, 20), (40, 13), (2, 90), (31, 31)][k % 4], "body": None, "cost": 8, "limit": 400})
    return res


def segments(ax):
    """All straight lines on an axis, and the points marked on it."""
    lines, dots = [], []
    for l in ax.lines:
        xy = np.array(l.get_xydata(), dtype=float)
        if l.get_linestyle() not in ("None", "", " ") and l.get_visible():
            lines += [(p, q) for p, q in zip(xy[:-1], xy[1:]) if np.all(np.isfinite(p)) and np.all(np.isfinite(q))]
        if l.get_marker() not in ("None", "", " ", None):
            dots += [p for p in xy if np.all(np.isfinite(p))]
    for c in ax.collections:
        if isinstance(c, LineCollection):
            for s in c.get_segments():
                lines += list(zip(s[:-1], s[1:]))
        elif isinstance(c, PathCollection):
            dots += [p for p in np.array(c.get_offsets(), dtype=float)]
    return lines, dots


def picture(ax):
    lines, dots = segments(ax)
    boxes = []
    for p in ax.patches:
        if isinstance(p, patches.Rectangle):
            (x, y), w, h = p.get_xy(), p.get_width(), p.get_height()
            boxes.append([nums([min(x, x + w), min(y, y + h)]), nums([max(x, x + w), max(y, y + h)])])
        else:
            v = p.get_path().vertices
            boxes.append([nums(v.min(axis=0)), nums(v.max(axis=0))])
    lines = [sorted((tuple(map(float, p)), tuple(map(float, q)))) for p, q in lines]
    unique = lambda s: [json.loads(x) for x in sorted({json.dumps(x) for x in s})]
    a = ax.get_aspect()
    return {"dots": unique([nums(p) for p in dots]), "lines": unique([[nums(p), nums(q)] for p, q in lines]), "rectangles": unique(boxes),
            "x": nums(sorted(ax.get_xlim())), "y": nums(sorted(ax.get_ylim())), "aspect": "equal" if a in (1, 1.0, "equal") else "other"}


def run(scn):
    r = rng(scn["id"], scn["seed"])
    s = scn["size"]
    d1 = RectangleDomain(2 * s, s, r.choice([None, "left"]))
    d2 = RectangleDomain(s, 3 * s)
    g = d1.grid(s)
    things = [RectangleDomain(scn["large"][0] * s, scn["large"][1] * s).grid(s) if "large" in scn else d1.grid(s / 2), d1.refine(g, r.choice([2, 3])), d2.grid(s), d1, d2]
    if scn["body"]:   # not at the origin, and not a rectangle
        body = Body(**scn["body"])
        things[2] = body.grid(s) if r.random() < 0.6 else body.refine(body.grid(s), 2)
    if r.random() < 0.5:   # edges that are not sides of triangles
        for t in r.sample(things[:3], r.randint(1, 3)):
            for _ in range(r.choice([1, 2])):
                t.append_edge(tuple(r.sample(range(len(t.points)), 2)))
    own = [(-r.random() * s, r.random() * s), (r.uniform(1, 5) * s, r.uniform(-2, 3) * s)]
    axes, events = [], []
    for o in scn["ops"]:
        if o["op"] == "turn":
            ax = axes[o["on"] - 1]
            how = r.choice(["x", "y", "xy"])
            if "x" in how:
                ax.invert_xaxis()
            if "y" in how:
                ax.invert_yaxis()
            events.append({"ev": "draw", **o, "where": True, "canvases": [picture(a) for a in axes]})
            continue
        if o["op"] == "given":
            _, many = plt.subplots(1, 2)
            axes.append(many[r.randrange(2)])
            axes[-1].plot(*zip(*own), color="green")
            events.append({"ev": "draw", **o, "where": True, "canvases": [picture(a) for a in axes]})
            continue
        t = things[o["t"] - 1]
        before = set(plt.get_fignums())
        if o["op"] == "new":
            ax = t.plot(None) if o["t"] <= 3 or r.random() < 0.5 else t.plot()
            where = ax is not None and all(ax is not a for a in axes) and before < set(plt.get_fignums()) and len(set(plt.get_fignums()) - before) == 1
            axes.append(ax)
        else:
            given = axes[o["on"] - 1]
            ax = t.plot(given)
            where = ax is given and set(plt.get_fignums()) == before
        events.append({"ev": "draw", "op": o["op"], "t": o["t"], "on": o["on"], "where": bool(where), "canvases": [picture(a) for a in axes]})
    plt.close("all")
    desc = [{"kind": "grid", "points": [nums(map(float, p)) for p in t.points], "edges": [sorted((int(x) for x in e), key=lambda v: tuple(map(float, t.points[v]))) for e in t.edges]} for t in things[:3]]
    desc += [{"kind": "domain", "w": num(t.width), "h": num(t.height)} for t in things[3:]]
    desc.append({"kind": "own", "points": [nums(p) for p in own], "edges": [[0, 1]]})
    return {"things": desc, "size": num(s), "events": events}
