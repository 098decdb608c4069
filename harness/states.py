"""C25, C26: evaluates, plots and saves recorded states."""

import json
import math
import os
import tempfile
import numpy as np
from common import Timeout, dress, nested, num, nums, rng
import sim as simulation
from energy import Random
from stepobj import wrong_shapes
from matplotlib import pyplot as plt
from matplotlib import animation
from matplotlib.collections import PolyCollection
from tvemoves_rufbad.simulation import Step, RegularizedStep


def scenarios(prop, tier, seed, work):
    r = rng(prop, seed)
    thorough = tier == "thorough"
    res = []

    def add(what, c1, body=False, **kw):
        c = simulation._config(r, c1)
        if c1:
            c.update(width=c["scale"], height=c["scale"], refine=r.choice([1, 2]))
        if what == "direct" and len(res) % 4 == 3:   # very small and very large bodies
            f = r.choice([2.0 ** -22, 2.0 ** -14, 2.0 ** 12])
            c.update(width=c["width"] * f, height=c["height"] * f, scale=c["scale"] * f)
        if body:
            simulation._elsewhere(r, c, c1)
        elif what != "direct" and r.random() < 0.35:
            simulation._extreme(r, c)
            if c["extreme"] == "heat":   # all temperatures are very low or very high
                kw = {k: v for k, v in kw.items() if k not in ("r", "theta0")}
        c.update(kw, what=what, id=f"{what}{'-body' if body else ''}{'-' + c['extreme'] if c['extreme'] else ''}-{len(res)}-{'c1' if c1 else 'plain'}", spec="TraceState", cost=30 if c1 else 1, limit=400)
        res.append(c)

    if prop == "C25":
        for k in range(300 if thorough else 40):
            add("direct", k % 3 == 2, k % 5 == 4)
        for k in range(200 if thorough else 24):
            add("run", k % 4 == 3, k % 6 in (4, 5), plan=simulation._plan(r.choice([[1], [2], [1, 1]])))
        for k in range(12):
            add("reject", k % 2 == 1)
    else:
        seqs = [json.loads(l) for l in sorted(set(open(os.path.join(work, "MC_Views.cases"))))]
        seqs = [q for q in seqs if q[-1]["op"] not in ("run", "fail")]
        for k, ops in enumerate(seqs if thorough else r.sample(seqs, 60)):
            plan = [{"n": 1, "at": 0, "fault": "none"} if o["op"] == "run" else {"n": 1, "at": 1, "fault": ["mech-garbage", "heat-garbage"][o["i"] - 1]}
                    for o in ops if o["op"] in ("run", "fail")]
            add("views", k % 8 == 7, ops=ops, plan=plan, loads=True, r=r.choice([0.5, 0.05, 5]), theta0=r.choice([0.0, 0.5, 4, 1]))
        for k in range(200 if thorough else 24):
            add("plots", k % 4 == 3, k % 5 == 2, plan=simulation._plan(r.choice([[1], [2, 1], [1, 1]])), r=r.choice([0.5, 0.05, 5]),
                theta0=r.choice([0.0, 0.5, 4, 1]))
        for k in range(40 if thorough else 8):
            add("saved", k % 4 == 3, plan=simulation._plan(r.choice([[1], [2]])))
        for k in range(60 if thorough else 8):
            add("animation", k % 4 == 3, k % 4 == 2, plan=simulation._plan(r.choice([[1], [2]])), theta0=r.choice([0.0, 4]))
        # long histories
        for k in range(6 if thorough else 2):
            what = ["animation", "plots"][k % 2]
            add(what, False, plan=simulation._plan([[r.randint(105, 130)], [r.randint(40, 60), 30]][k % 2]), theta0=0.5, width=1, height=1, scale=1)
    return res


def run(scn):
    return {"direct": direct, "run": ran, "reject": rejections, "plots": plots, "views": plots, "saved": plots, "animation": plots}[scn["what"]](scn)


def meshes(grid, refined):
    fine = refined or grid
    return {
        "points": [nums(p) for p in grid.points], "triangles": [[int(x) for x in t] for t in grid.triangles],
        "fine_points": [nums(p) for p in fine.points], "fine_triangles": [[int(x) for x in t] for t in fine.triangles],
    }


def attempt(f, *args):
    try:
        f(*args)
        return True
    except Timeout:
        raise
    except Exception:  # pylint: disable=broad-except
        return False


def evaluations(r, step, grid, c1, k, count, body=False):
    box = [(min(p[i] for p in grid.points), max(p[i] for p in grid.points)) for i in range(2)]
    w, h = box[0][1], box[1][1]
    if body:
        pts = []
        for n in range(count + 4):
            a, b, c = (grid.points[v] for v in r.choice(grid.triangles))
            l, m = sorted((r.random(), r.random()))
            q = l * a + (m - l) * b + (1 - m) * c if n % 2 else l * a + (1 - l) * b
            pts.append((q[0], q[1]))
    else:
        pts = [(r.random() * w, r.random() * h) for _ in range(count)]
    pts += [(q[0], q[1]) for q in r.sample(list(grid.points), 2)]
    if not body:
        pts += [(w * r.random(), h), (0.0, h * r.random()), (w, h), (w / 2, h / 2)]
    res = []
    for p in pts:
        e = {"ev": "point", "state": k, "p": nums(p), "y": nested(step.y(*p)), "strain": nested(step.y.strain(*p)),
             "theta": num(step.theta(*p)), "theta_grad": nested(step.theta.gradient(*p))}
        if c1:
            e["hyper"] = nested(step.y.hyper_strain(*p))
        res.append(e)
    (x0, w), (y0, h) = box
    size = max(w - x0, h - y0)
    d, q = r.choice([1e-6, 1e-5, 1e-4]) * size, r.choice([1e-3, 0.1, 3]) * size
    u = r.random()
    x, y = x0 + u * (w - x0), y0 + u * (h - y0)
    around = lambda d: [(w + d, y), (x0 - d, y), (x, h + d), (x, y0 - d), (w + d, h + d), (x0 - d, y0 - d), (w + d, y0)]
    for p in r.sample(around(d), 3) + r.sample(around(q), 2):
        for what, f in (("deformation", step.y), ("temperature", step.theta), ("strain", step.y.strain), ("gradient", step.theta.gradient)):
            res.append({"ev": "outside", "what": what, "ok": attempt(f, *p)})
    return res


def setting(scn):
    dom = simulation.domain_of(scn)
    grid = dom.grid(scn["scale"])
    c1 = scn["reg"] is not None
    refined = dom.refine(grid, scn["refine"]) if c1 else None
    return dom, grid, refined, c1


def direct(scn):
    r = rng(scn["id"], scn["seed"])
    dom, grid, refined, c1 = setting(scn)
    data = Random(r, grid, refined)
    states, events = [], []
    for k in range(2):
        y, theta = data.deformation(), data.temperature()
        step = RegularizedStep(dress(r, y), dress(r, theta), dom, grid, refined) if c1 else Step(dress(r, y), dress(r, theta), dom, grid)
        states.append({"y": nested(y), "theta": nested(theta)})
        events += evaluations(r, step, grid, c1, k + 1, 6, "body" in scn)
    return {"form": "c1" if c1 else "plain", **meshes(grid, refined), "states": states, "events": events}


class Quiet(simulation.Run):
    """A simulation that only remembers the answers of the solver."""

    def __init__(self, cfg, after=None):
        super().__init__(cfg, record=False)
        self.after = after

    def snapshot(self, sim):
        if self.after is not None:
            self.after(self, sim)
        return []

    def history(self):
        first = {"y": nested(self.ident), "theta": [num(self.cfg["theta0"])] * len(self.theta_points)}
        res, y = [first], None
        for e in self.events:
            if e["ev"] == "solve" and e.get("outcome") != "raise":
                if e["kind"] == "mech":
                    y = e["answer"]
                else:
                    res.append({"y": y, "theta": e["answer"]})
        return res


def ran(scn):
    simulation.install()
    r = rng(scn["id"], scn["seed"])
    s = Quiet(scn)
    got = s.go()
    c1 = s.how == "c1"
    events = []
    for k, step in enumerate(got.steps):
        events += evaluations(r, step, s.grid, c1, k + 1, 4, "body" in scn)
    return {"form": s.how, **meshes(s.grid, s.refined), "states": s.history(), "events": events}


def rejections(scn):
    dom, grid, refined, c1 = setting(scn)
    ny, nt = len(grid.points), len((refined or grid).points)
    yshape = (ny, 2, 6) if c1 else (ny, 2)
    events = []

    def make(y, theta, fine=refined):
        return RegularizedStep(y, theta, dom, grid, fine) if c1 else Step(y, theta, dom, grid)

    for bad in wrong_shapes(yshape, (nt,)):
        events.append({"ev": "create", "what": f"deformation of shape {bad}", "ok": attempt(make, np.ones(bad), np.ones(nt))})
    for bad in wrong_shapes((nt,), (nt, 1)):
        events.append({"ev": "create", "what": f"temperature of shape {bad}", "ok": attempt(make, np.ones(yshape), np.ones(bad))})
    if c1:
        if ny != nt:
            events.append({"ev": "create", "what": "temperature on the coarse grid", "ok": attempt(make, np.ones(yshape), np.ones(ny))})
        events.append({"ev": "create", "what": "no refined grid", "ok": attempt(make, np.ones(yshape), np.ones(nt), None)})
    return {"form": "c1" if c1 else "plain", "events": events}


# ------------------------------------------------------------------ plots
def picture(fig):
    """What a figure shows."""
    axes = [a for a in fig.axes if any(isinstance(c, PolyCollection) for c in a.collections)]
    if len(axes) != 1:
        return {"polygons": [], "values": [], "xlim": [], "ylim": [], "clim": [], "aspect": "none"}
    ax = axes[0]
    cs = [c for c in ax.collections if isinstance(c, PolyCollection)]
    c = cs[0]
    polys = []
    for p in c.get_paths():
        v = [tuple(map(float, q)) for q in p.vertices]
        if len(v) > 1 and v[0] == v[-1]:
            v = v[:-1]
        polys.append(v)
    return {"polygons": polys, "values": [] if c.get_array() is None else [float(x) for x in np.ravel(c.get_array())],
            "xlim": [float(x) for x in ax.get_xlim()], "ylim": [float(x) for x in ax.get_ylim()], "clim": [float(x) for x in c.get_clim()],
            "aspect": "equal" if ax.get_aspect() in (1, 1.0, "equal") else "other"}


def matching(pos, tris, polys):
    """For every triangle the polygon closest to it; a permutation if everything is in order."""
    free = list(range(len(polys)))
    cents = [np.mean(p, axis=0) if p else np.zeros(2) for p in polys]
    res = []
    for t in tris:
        c = np.mean([pos[v] for v in t], axis=0)
        if not free:
            res.append(0)
            continue
        k = min(free, key=lambda k: float(np.sum((cents[k] - c) ** 2)))
        free.remove(k)
        res.append(k + 1)
    return res


def plots(scn):
    simulation.install()
    r = rng(scn["id"], scn["seed"])
    events = []
    form = {}

    def plotting_grid(s, count):
        """The grid whose triangles are shown, deduced from their number."""
        if s.how == "plain":
            return s.grid
        n = max(1, round(math.sqrt(count / len(s.refined.triangles))))
        if form.get("n") != n:
            form["n"], form["grid"] = n, s.domain.refine(s.refined, n)
        return form["grid"]

    def describe(s, sim, index, fig):
        p = picture(fig)
        g = plotting_grid(s, len(p["polygons"]))
        k = index if index >= 0 else len(sim.steps) + index
        pos = [np.array([float(x) for x in sim.steps[k].y(*q)]) for q in g.points]
        return {"polygons": [[nums(q) for q in v] for v in p["polygons"]], "values": nums(p["values"]),
                "xlim": nums(p["xlim"]), "ylim": nums(p["ylim"]), "clim": nums(p["clim"]), "aspect": p["aspect"],
                "match": matching(pos, g.triangles, p["polygons"])}

    def show(s, sim):
        n = len(sim.steps)
        every = list(range(-n, n)) if s.how == "plain" else [0, -1, n - 1]
        draw(s, sim, r.sample(every, min(len(every), 4)) + [n, -n - 1, n + 5])

    def draw(s, sim, indices):
        n = len(sim.steps)
        for i in indices:
            plt.close("all")
            sim.plot_step(i)
            e = {"ev": "plot", "index": i, "n": n, "figures": len(plt.get_fignums())}
            if len(plt.get_fignums()) == 1 and -n <= i < n:
                e.update(describe(s, sim, i, plt.gcf()))
            events.append(e)
        plt.close("all")

    def save(s, sim):
        n = len(sim.steps)
        write(s, sim, [0, n - 1, -1, -n, n, -n - 1])

    def write(s, sim, indices):
        n = len(sim.steps)
        for i in indices:
            with tempfile.TemporaryDirectory() as d:
                old = os.getcwd()
                os.chdir(d)
                folder = r.choice([None, None, "", "out", "run.1", os.path.join("a", "b.c")])
                try:
                    if folder is None:
                        sim.save_step(i)
                    else:
                        os.makedirs(os.path.join(d, folder), exist_ok=True)
                        sim.save_step(i, os.path.join(r.choice(["", d]), folder, "step"))
                finally:
                    os.chdir(old)
                files = [os.path.join(top, f) for top, _, names in os.walk(d) for f in names]
                files = [os.path.relpath(f, os.path.join(d, folder or "")) for f in files]
                events.append({"ev": "saved", "index": i, "n": n, "files": sorted(files)})
            plt.close("all")

    def film(s, sim):
        n = len(sim.steps)
        seen = []

        def stand_in(anim, *_, **__):
            anim._init_draw()
            for frame in anim.new_saved_frame_seq():
                anim._draw_next_frame(frame, blit=False)
                seen.append(describe(s, sim, min(len(seen), n - 1), anim._fig))

        old = animation.Animation.save
        animation.Animation.save = stand_in
        try:
            sim.save_animation()
        finally:
            animation.Animation.save = old
            plt.close("all")
        events.append({"ev": "frames", "count": len(seen), "n": n})
        some = range(n) if n < 20 else sorted(set([0, 1, n // 2, n - 1] + r.sample(range(n), 4)))
        for k, p in enumerate(seen[:n]):
            if k not in some:
                continue
            events.append({"ev": "frame", "index": k, "n": n, **p})

    pending = list(scn.get("ops", []))

    def schedule(s, sim):
        """The views up to the next step."""
        while pending:
            o = pending.pop(0)
            if o["op"] in ("run", "fail"):
                return
            if o["op"] == "film":
                film(s, sim)
            else:
                {"plot": draw, "save": write}[o["op"]](s, sim, [o["i"]])

    what = {"plots": show, "views": schedule, "saved": save, "animation": film}[scn["what"]]
    s = Quiet(scn, what)
    s.go()
    tr = {"form": s.how, **meshes(s.grid, s.refined), "states": s.history(), "events": events}
    g = form.get("grid", s.grid)
    tr["plot_points"] = [nums(p) for p in g.points]
    tr["plot_triangles"] = [[int(x) for x in t] for t in g.triangles]
    if s.how == "c1":
        tr["parent"] = [[owner(s.grid, p), owner(s.refined, p)] for p in g.points]
    return tr


def owner(grid, p):
    """The number of a triangle that contains p."""
    best = None
    for k, t in enumerate(grid.triangles):
        a, b, c = (np.array([float(x) for x in grid.points[v]]) for v in t)
        A = np.array([[a[0] - c[0], b[0] - c[0]], [a[1] - c[1], b[1] - c[1]]])
        l = np.linalg.solve(A, np.array([float(p[0]) - c[0], float(p[1]) - c[1]]))
        m = min(l[0], l[1], 1 - l[0] - l[1])
        if best is None or m > best[0]:
            best = (m, k + 1)
    return best[1]
