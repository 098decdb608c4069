"""C27: several simulations in one program, in the interleavings enumerated by MC_Many; and what
happens to the objects that meshes and states are made from."""

import json
import os
from collections import deque
import numpy as np
from matplotlib import pyplot as plt
from common import Timeout, num, nums, rng
import sim as simulation
from sim import Fault, Run, ScriptedSolver, header
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.integrators import BoundaryIntegrator, Integrator
from tvemoves_rufbad.interpolation import C1Interpolation, P1Interpolation
from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step
from tvemoves_rufbad.quadrature_rules import CENTROID
from tvemoves_rufbad.simulation import SimulationParams, Step
from tvemoves_rufbad.tensors import BarycentricCoordinates, Vector
from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step
from mesh import rec_grid


def scenarios(prop, tier, seed, work):
    r = rng(prop, seed)
    thorough = tier == "thorough"
    res = []
    logs = sorted(set(open(os.path.join(work, "MC_Many.cases"))))
    logs = [json.loads(l) for l in logs]
    # both simulations have to do something
    logs = [q for q in logs if len({e["who"] for e in q}) > 1]
    r.shuffle(logs)

    def depth(q):
        d = m = 0
        for e in q:
            d += (e["op"] in ("new", "run")) - (e["op"] == "return")
            m = max(m, d)
        return m

    def pick(q, count):
        """Programs with two and with three simulations in turn."""
        two, three = ([x for x in q if (max(e["who"] for e in x) > 2) == more] for more in (False, True))
        return [x for pair in zip(two, three) for x in pair][:count]

    chosen = pick([q for q in logs if depth(q) > 1], 2000 if thorough else 84) + pick([q for q in logs if depth(q) == 1], 500 if thorough else 36)
    for k, q in enumerate(chosen):
        n = max(e["who"] for e in q)
        c1 = k % 12 == 11
        both = k % 24 == 23
        shared = "none" if both else r.choice(["domain", "all", "none", "domain"])
        base = simulation._config(r, False)
        base.update(width=r.choice([1, 2]), height=1, scale=1)
        cfgs = []
        for i in range(n):
            c = simulation._config(r, both or c1 and i == 1)
            c.update(moods=r.choice(simulation.MOODS), check=["start", "undisturbed"], loads=True, theta0=r.choice([0, 0.5, 1, 4]), r=r.choice([0.5, 0.125, 2.0]),
                     traction=[simulation._load(r, 2, -2, 2, fps=c["fps"]) for _ in range(2)], external=simulation._load(r, 2, 0, 2, True, fps=c["fps"]))
            c.update({key: base[key] for key in ("width", "height", "fix", "fixed")})
            c["scale"] = r.choice([1, 1, 0.5])
            if c["reg"] is not None:
                c.update(scale=1, refine=r.choice([1, 2]))
            if both:
                c.update(width=1, height=1, scale=1, refine=1)
            if shared == "none" and i > 0:   # equally many vertices, but another body
                f = r.choice([0.5, 2, 3])
                c.update(width=c["width"] * f, height=c["height"] * f, scale=c["scale"] * f)
                if r.random() < 0.5:
                    c.update(width=c["height"], height=c["width"])
            if shared == "all" and not c1:
                c.update({key: base[key] for key in ("theta0", "r", "fps", "scale", "reg", "refine")})
            c["plan"] = [{"n": e["n"], "at": 0, "fault": "none"} for e in q if e["op"] == "run" and e["who"] == i + 1]
            cfgs.append(c)
        res.append({"id": f"program-{k}-{shared}-{'c1' if c1 else 'plain'}", "spec": "TraceMany", "log": q, "sims": cfgs, "shared": shared,
                    "seed": r.randrange(1 << 30), "cost": 60 if c1 else len(q), "limit": 400})
    programs = sorted(set(open(os.path.join(work, "MC_Meshes.cases"))))
    programs = [q for q in map(json.loads, programs) if any(o["op"] in ("edge", "refine", "use") for o in q)]
    for k, q in enumerate(r.sample(programs, min(len(programs), 4000 if thorough else 300))):
        res.append({"id": f"meshes-{k}", "spec": "TraceMeshes", "ops": q, "size": r.choice([1, 0.5, 3, 0.3, 1e-4, 700]),
                    "seed": r.randrange(1 << 30), "cost": 0.1, "limit": 120})
    return res


class Member(Run):
    """A simulation of a program: its faults and nested calls follow the schedule."""

    def __init__(self, cfg, program, who):
        super().__init__(cfg, faults=False)
        self.program = program
        self.who = who
        self.sim = None

    def again(self):
        self.frames, self.call, self.done, self.asked = 0, -1, 0, 0

    def solve(self, model):
        self.program.nested()
        self.program.restore(self.who)
        mark = len(self.events)
        fault = self.program.next_is("fault", self.who)
        if fault:
            self.plan_faults, self.fired = True, set()
        try:
            super().solve(model)
        finally:
            self.plan_faults = False
            self.program.take(self.events[mark:], self.who)

    def _fault(self):
        if not self.plan_faults:
            return None
        kind = "mech" if self.program.phase(self.who) == "mech" else "heat"
        return kind + self.program.r.choice(["", "-garbage", "-garbage", "-interrupt"])

    def _load_fault(self, name, late):
        if self.program.r.random() < 0.3:
            self.program.nested()
            self.program.restore(self.who)


class Program:
    def __init__(self, scn):
        self.r = rng(scn["id"], scn["seed"])
        self.log = deque(scn["log"])
        self.events = []
        self.members = [Member(c, self, i) for i, c in enumerate(scn["sims"])]
        self.stack = []
        self.solved = [0 for _ in self.members]
        self.domain = self.params = None
        c = scn["sims"][0]
        if scn["shared"] != "none":
            self.domain = simulation.domain_of(c)
        self.shared = scn["shared"]
        self.all_params = {}

    def given(self, i):
        """Domain and parameters of simulation i."""
        c = self.members[i].cfg
        dom = self.domain or self.members[i].domain
        key = str([c[k] for k in ("theta0", "r", "fps", "scale", "reg", "refine")])
        if self.shared == "none" or key not in self.all_params:
            self.all_params[key] = SimulationParams(c["theta0"], c["r"], c["fps"], c["scale"], c["reg"], c["refine"])
        return dom, self.all_params[key]

    # -------------------------------------------------------------- schedule
    def next_is(self, op, who):
        return bool(self.log) and self.log[0]["op"] == op and self.log[0]["who"] == who + 1

    def phase(self, who):
        return "heat" if self.solved[who] % 2 else "mech"

    def restore(self, who):
        ScriptedSolver.now = self.members[who].solve

    def nested(self):
        while self.log and self.log[0]["op"] in ("new", "run"):
            self.act()

    def take(self, events, who):
        """A solve of simulation who has been answered or has failed."""
        for e in events:
            self.events.append(e | {"who": who + 1})
        if self.log and self.log[0]["who"] == who + 1 and self.log[0]["op"] in ("mech", "heat", "fault"):
            self.log.popleft()
        self.solved[who] += 1

    def act(self):
        op = self.log.popleft()
        i = op["who"] - 1
        m = self.members[i]
        self.stack.append(i)
        self.solved[i] = 0
        ScriptedSolver.now = m.solve
        if op["op"] == "new":
            self.events.append({"ev": "new", "who": i + 1})
            m.again()
            try:
                m.sim = m.construct(*self.given(i))
                ok = True
            except Timeout:
                raise
            except (Fault, KeyboardInterrupt):
                ok = False
        else:
            self.events.append({"ev": "run", "who": i + 1, "n": op["n"]})
            ok, _ = m.request(m.sim, m.call + 1)
        # whatever the code did instead of what was scheduled
        while self.log and not self.next_is("return", i):
            self.log.popleft()
        if self.log:
            self.log.popleft()
        self.stack.pop()
        ScriptedSolver.now = self.members[self.stack[-1]].solve if self.stack else None
        self.events.append({"ev": "return", "who": i + 1, "ok": ok, "seen": [s.sim is not None for s in self.members],
                            "states": [[] if s.sim is None else s.snapshot(s.sim) for s in self.members]})
        self.look()

    def look(self):
        """At one of the simulations."""
        there = [i for i, m in enumerate(self.members) if m.sim is not None]
        if not there:
            return
        i = self.r.choice(there)
        m = self.members[i]
        n = len(m.sim.steps)
        for k in {0, n - 1} if m.how == "plain" else {0}:
            plt.close("all")
            m.sim.plot_step(k)
            ax = plt.gcf().axes[0]
            c = ax.collections[0]
            drawn = sorted({(round(q[0], 12), round(q[1], 12)) for p in c.get_paths() for q in p.vertices.tolist()})
            self.events.append({"ev": "look", "who": i + 1, "state": k + 1, "xlim": nums(ax.get_xlim()), "ylim": nums(ax.get_ylim()),
                                "clim": nums(c.get_clim()), "drawn": [nums(q) for q in drawn]})
            plt.close("all")
        dom, params = self.given(i)
        self.events.append({"ev": "given", "who": i + 1, "text": tell(simulation.like(dom), params)})


def tell(dom, p):
    return " ".join(str(x) for x in (dom, p.initial_temperature, p.search_radius, p.fps, p.scale, p.regularization, p.refinement_factor))


# --------------------------------------------------------------------- meshes
DOMS = [(1, 1, "lower", ["lower"]), (2, 1, ["right", "left", "right"], ["left", "right"])]


def use(r, domain, grid, reg):
    """Everything one can do with a grid that should leave it as it is."""
    ps = [Vector([r.random() * domain.width, r.random() * domain.height]) for _ in range(3)]
    for p in ps:
        b = grid.to_barycentric_point(p)
        P1Interpolation(grid, [r.random() for _ in grid.points])(b.triangle, b.coordinates)
    grid.point_to_vertex(ps[0])
    t = r.choice(grid.triangles)
    grid.triangle_vertices(t)
    grid.edge_vertices(r.choice(grid.edges))
    C1Interpolation(grid, [[r.random() for _ in range(6)] for _ in grid.points])(t, BarycentricCoordinates(0.25, 0.5))
    Integrator(CENTROID, grid.triangles, grid.points)(lambda *_: 1.0)
    BoundaryIntegrator(2, grid.boundary.edges, grid.points)(lambda *_: 1.0)
    y = np.array([list(p) for p in grid.points], dtype=float)
    _, ax = plt.subplots()
    state = Step(y, np.ones(len(grid.points)), domain, grid)
    state.plot(ax, 1.0)
    state.y(*ps[0])
    grid.plot(ax)
    domain.plot(ax)
    domain.curves(3)
    plt.close("all")
    ScriptedSolver.now = lambda model: None
    if len(grid.points) < 12:
        mechanical_step(ScriptedSolver(), grid, MechanicalStepParams(1.0, 0.5, 3.0, None), None, lambda t, a, b: [1.0, t]).solve()
        thermal_step(ScriptedSolver(), grid, y, y, np.ones(len(grid.points)), ThermalStepParams(0.5, 3.0, None), lambda t: t, None).solve()


def meshes(scn):
    simulation.install()
    r = rng(scn["id"], scn["seed"])
    size = scn["size"]
    domains = [simulation.domain_of({"width": w * size, "height": h * size, "fix": fix}) for w, h, fix, _ in DOMS]
    about = lambda: [simulation.like(d) for d in domains]
    objs, events = [], []
    first = about()
    for o in scn["ops"]:
        if o["op"] == "make":
            objs.append((o["a"], domains[o["a"] - 1].grid(size / o["b"])))
        elif o["op"] == "refine":
            d, g = objs[o["a"] - 1]
            objs.append((d, domains[d - 1].refine(g, o["b"])))
        elif o["op"] == "edge":
            d, g = objs[o["a"] - 1]
            w, h = DOMS[d - 1][:2]
            e = [g.point_to_vertex(Vector([w * size, 0.0])), g.point_to_vertex(Vector([0.0, h * size]))]
            if r.random() < 0.5:
                e.reverse()
            g.append_edge(tuple(e))
        else:
            d, g = objs[o["a"] - 1]
            use(r, domains[d - 1], g, False)
        events.append({"ev": "act", "op": o["op"], "a": o["a"], "b": o["b"], "all": [rec_grid(g) for _, g in objs],
                       "same": [[bool(g == h) for _, h in objs] for _, g in objs], "domains": about()})
    return {"doms": [{"w": w, "h": h, "fix": f} for w, h, _, f in DOMS], "size": num(size), "domains": first, "events": events}


def run(scn):
    if "ops" in scn:
        return meshes(scn)
    simulation.install()
    twins = []
    for c in scn["sims"]:
        t = Run(c | {"plan": simulation._plan([1] * (sum(x["n"] for x in c["plan"]) + 1))}, faults=False, record=False)
        t.go()
        twins.append(t)
    p = Program(scn)
    for m, t in zip(p.members, twins):
        m.twin = t
    given = [p.given(i) for i in range(len(p.members))]
    given = [tell(d.at_first, q) for d, q in given]
    while p.log:
        p.act()
    sims = [header(m) | {"clean": t.states, "given": g} for m, t, g in zip(p.members, twins, given)]
    return {"sims": sims, "events": p.events}
