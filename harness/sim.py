"""C01 - C05: records simulations driven by a scripted solver.

The solver is registered under the name the code asks for.  It sees the problems exactly as they
are handed to a real solver and answers with random admissible values (or fails), so that nothing
depends on how the code builds the problems or what it calls its parts.
"""

import hashlib
import json
import math
import os
import numpy as np
import pyomo.environ as pyo
from pyomo.opt import SolverResults, SolverStatus, TerminationCondition
from pyomo.repn import generate_standard_repn
from bodies import Body, any_body, thickness
from evaluate import value
from common import Timeout, num, nums, nested, rng
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.simulation import Simulation, SimulationParams
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams

PIECES = 1 << 16


def dyadic(x):
    return np.round(np.asarray(x, dtype=float) * PIECES) / PIECES


class Fault(Exception):
    """What a failing solver or load function raises."""


def faults():
    """Failing solvers and load functions raise all kinds of errors."""
    from pyomo.common.errors import ApplicationError

    kinds = (ValueError, RuntimeError, TypeError, ZeroDivisionError, OSError, KeyError, IndexError, AttributeError,
             AssertionError, NotImplementedError, StopIteration, TimeoutError, FloatingPointError, MemoryError, ApplicationError)
    return [Fault] + [type("Fault" + k.__name__, (Fault, k), {}) for k in kinds]


FAULTS = faults()


def planned(err):
    """Whether it is what was raised, possibly wrapped into something else."""
    while err is not None:
        if isinstance(err, (Fault, KeyboardInterrupt)):
            return True
        err = err.__cause__ or err.__context__
    return False


class ScriptedSolver:
    """The solver in use; `now` decides what a solve does."""

    now = None

    def __init__(self, *_, **__):
        self.options = {}

    def __call__(self, *_, **__):
        return self

    def available(self, *_, **__):
        return True

    def solve(self, model, *_, **__):
        ScriptedSolver.now(model)
        res = SolverResults()
        res.solver.status = SolverStatus.ok
        res.solver.termination_condition = TerminationCondition.optimal
        return res


def install():
    pyo.SolverFactory.unregister("ipopt")
    pyo.SolverFactory.register("ipopt", doc="scripted")(ScriptedSolver)


def unknowns(model):
    return sorted(model.component_data_objects(pyo.Var, descend_into=True), key=lambda v: v.name)


class Layout:
    """Which variable is which nodal value, found out by solving a small step of the same kind
    with answers that number the variables."""

    def __init__(self, kind, how, grid, refined):
        seen = []

        def number(model):
            for k, v in enumerate(unknowns(model)):
                v.set_value(float(k + 1), skip_validation=True)
            seen.append([v.name for v in unknowns(model)])

        ScriptedSolver.now = number
        reg = 1.0 if how == "c1" else None
        n = len(grid.vertices)
        y = np.array([[[p[0], 1, 0, 0, 0, 0], [p[1], 0, 1, 0, 0, 0]] for p in grid.points], dtype=float)
        if how != "c1":
            y = y[:, :, 0]
        if kind == "mech":
            step = mechanical_step(ScriptedSolver(), grid, MechanicalStepParams(1.0, 1e6, 1.0, reg), refined, lambda t, a, b: [0.0, 0.0])
        else:
            theta = np.ones(n if how != "c1" else len(refined.vertices))
            step = thermal_step(ScriptedSolver(), grid, y, y, theta, ThermalStepParams(1e6, 1.0, reg), lambda t: 0.0, refined)
        step.solve()
        self.values = (step.y() if kind == "mech" else step.theta())
        self.shape = self.values.shape
        self.names = seen[0]
        # entry of the data -> index of the variable
        self.index = np.round(self.values).astype(int).reshape(-1) - 1
        assert np.all(self.index >= 0) and np.all(self.index < len(self.names)) and np.all(self.values.reshape(-1) == self.index + 1)

    def matches(self, model):
        return [v.name for v in unknowns(model)] == self.names


_layouts = {}


def layouts(cfg, how, grid, refined):
    key = (how, cfg["width"], cfg["height"], cfg["scale"], str(cfg["fix"]), cfg["refine"], str(cfg.get("body")))
    if key not in _layouts:
        if len(_layouts) > 3:
            _layouts.clear()
        now = ScriptedSolver.now
        _layouts[key] = {k: Layout(k, how, grid, refined) for k in ("mech", "heat")}
        ScriptedSolver.now = now
    return _layouts[key]


class Posed:
    """A problem as it is handed to the solver."""

    def __init__(self, model, layout):
        vs = unknowns(model)
        self.model = model
        self.layout = layout
        self.vars = [vs[k] for k in layout.index]
        self.start = np.array([np.nan if v.value is None else float(v.value) for v in self.vars])
        objs = list(model.component_data_objects(pyo.Objective, active=True, descend_into=True))
        self.objectives = len(objs)
        self.sense = "minimize" if objs and objs[0].sense == pyo.minimize else "other"
        self.expr = objs[0].expr if objs else None
        self._constrain()

    def _constrain(self):
        pos = {id(v): k for k, v in enumerate(self.vars)}
        n = len(self.vars)
        rows, rhs = [], []
        self.inequalities = []
        for k, v in enumerate(self.vars):
            if v.fixed:
                row = np.zeros(n)
                row[k] = 1.0
                rows.append(row)
                rhs.append(self.start[k])
        for c in self.model.component_data_objects(pyo.Constraint, active=True, descend_into=True):
            if not c.equality:
                self.inequalities.append(c)
                continue
            # fixed variables are treated like any other here
            rep = generate_standard_repn(c.body, compute_values=False, quadratic=False)
            row = np.zeros(n)
            const = float(pyo.value(rep.constant))
            if rep.nonlinear_expr is not None:
                raise ValueError("a nonlinear constraint")
            for v, a in zip(rep.linear_vars, rep.linear_coefs):
                row[pos[id(v)]] += float(pyo.value(a))
            rows.append(row)
            rhs.append(float(pyo.value(c.upper)) - const)
        self.x0 = self.start.copy()
        if not rows:
            self.null = np.eye(n)
            self.clamped = np.zeros(n, dtype=bool)
            return
        A, b = np.array(rows), np.array(rhs)
        # columns that no row mentions stay out of the decomposition
        used = np.any(np.abs(A) > 0, axis=0)
        Au = A[:, used]
        u, s, vt = np.linalg.svd(Au)
        rank = int(np.sum(s > 1e-9 * max(1.0, s[0] if len(s) else 1.0)))
        proj = np.eye(n)
        proj[np.ix_(used, used)] = vt[rank:].T @ vt[rank:] if rank < vt.shape[0] else 0.0
        self.null = proj
        self.clamped = np.abs(np.diag(proj)) < 1e-9
        start = np.where(np.isnan(self.start), 0.0, self.start)
        fix = np.zeros(n)
        fix[used] = np.linalg.pinv(Au) @ (b - A @ start)
        self.x0 = start + fix

    def shaped(self, x):
        return np.asarray(x).reshape(self.layout.shape)

    def towards(self, target):
        """The point closest to target that satisfies the constraints."""
        return self.x0 + self.null @ (target.reshape(-1) - self.x0)

    def put(self, x):
        for v, c in zip(self.vars, x):
            v.set_value(float(c), skip_validation=True)

    def at(self, x):
        self.put(x)
        return value(self.expr)

    def difference(self, a, b):
        keep = [v.value for v in self.vars]
        d = self.at(a) - self.at(b)
        for v, c in zip(self.vars, keep):
            v.set_value(c, skip_validation=True)
        return d

    def admits(self, k, c):
        v = self.vars[k]
        if v.lb is not None and c < v.lb:
            return False
        if v.ub is not None and c > v.ub:
            return False
        if c not in v.domain:
            return False
        if self.inequalities:
            old = v.value
            v.set_value(c, skip_validation=True)
            try:
                for con in self.inequalities:
                    b = float(pyo.value(con.body))
                    if con.lower is not None and b < float(pyo.value(con.lower)):
                        return False
                    if con.upper is not None and b > float(pyo.value(con.upper)):
                        return False
            finally:
                v.set_value(old, skip_validation=True)
        return True


def domain_of(cfg):
    """A domain, with the list of fixed sides that its creator keeps, and what it is like."""
    if cfg.get("body"):
        res = Body(**cfg["body"])
        res.at_first = like(res)
        return res
    fix = list(cfg["fix"]) if isinstance(cfg["fix"], list) else cfg["fix"]
    res = RectangleDomain(cfg["width"], cfg["height"], fix)
    res.handed_in = fix
    res.at_first = like(res)
    return res


def like(domain):
    if isinstance(domain, Body):
        return str(domain)
    return f"{domain.width} {domain.height} {domain.fix} from {domain.handed_in}"


def identity(points, how):
    if how == "c1":
        return np.array([[[p[0], 1, 0, 0, 0, 0], [p[1], 0, 1, 0, 0, 0]] for p in points], dtype=float)
    return np.array([[p[0], p[1]] for p in points], dtype=float)


def poly(p):
    """Polynomials in t, x, y as lists of [coefficient, power of t, of x, of y], each switched on from
    one time to another if these follow."""
    return lambda t, x=0.0, y=0.0: float(sum(
        c * t**i * x**j * y**k for c, i, j, k, *when in p if not when or when[0] <= t < when[1]))


class Run:
    """One simulation: its trace and, per solve, the differences of its objective."""

    def __init__(self, cfg, loads=True, faults=True, record=True):
        self.cfg = cfg
        self.loads = loads
        self.plan_faults = faults
        self.record = record
        self.events = []
        self.texts = {}            # what the recorded states print
        self.frames = 0            # completed heat solves
        self.call = -1             # index of the request, -1 for the construction
        self.done = 0              # heat solves completed in this request
        self.fired = set()
        self.asked = 0             # evaluations of the traction since the last solve
        self.diffs = {}
        self.states = None
        self.twin = None           # differences of an undisturbed run
        self.bare = None           # differences of a run without loads
        self.domain = domain_of(cfg)
        self.grid = self.domain.grid(cfg["scale"])
        self.how = "c1" if cfg["reg"] is not None else "plain"
        self.refined = self.domain.refine(self.grid, cfg["refine"]) if self.how == "c1" else None
        self.layouts = layouts(cfg, self.how, self.grid, self.refined)
        self.theta_points = (self.refined or self.grid).points
        self.ident = identity(self.grid.points, self.how)
        self.width = thickness(cfg["body"]["shape"]) if cfg.get("body") else 1.0
        self.prev_y = None

    # ---------------------------------------------------------------- answers
    def _target(self, kind, what):
        """Values around the identity, or temperatures."""
        r = rng(self.cfg["seed"], kind, self.frames, what)
        if kind == "heat":
            n = len(self.theta_points)
            heat = self.cfg["heat"]
            return np.array([0.0 if r.random() < 0.08 else heat * r.uniform(0, 1.5) for _ in range(n)])
        amp = 0.11 * self.cfg["scale"] * self.width
        if self.how == "plain":
            return self.ident + np.array([[r.uniform(-amp, amp) for _ in range(2)] for _ in self.ident])
        bend = 0.3 / max(1.0, self.cfg["scale"])
        scales = [amp / 2, 0.1, 0.1, bend, bend, bend]
        return self.ident + np.array([[[r.uniform(-a, a) for a in scales] for _ in range(2)] for _ in self.ident])

    def _answer(self, p, kind):
        t = self._target(kind, "answer").reshape(-1)
        r = self.cfg["r"]
        t = np.clip(t, p.start - 0.95 * r, p.start + 0.95 * r)
        if kind == "heat":
            t = np.maximum(t, 0.0)
        t = np.where(p.clamped, p.x0, dyadic(p.towards(t)))
        if self.cfg.get("body"):   # fixed in any direction
            t = p.towards(t)
        # Solvers need not move everything
        m = rng(self.cfg["seed"], kind, self.frames, "mood")
        mood = m.choice(self.cfg.get("moods", ["all"]))
        if mood == "still" or mood == kind + "-still":
            return p.start
        moved = np.ones(p.layout.shape, dtype=bool)
        if mood == "few":
            moved[:] = False
            moved[m.sample(range(len(moved)), m.randint(1, 2))] = True
        elif mood == "first" and kind == "mech":
            moved[:, m.randrange(2)] = False
        return np.where(moved.reshape(-1), t, p.start)

    def _probe(self, p, kind, what):
        t = np.where(p.clamped, p.x0, dyadic(p.towards(self._target(kind, what).reshape(-1))))
        return p.towards(t) if self.cfg.get("body") else t

    # ----------------------------------------------------------------- solver
    def _fault(self):
        """The fault planned for this step, if it has not happened yet."""
        if not self.plan_faults or self.call < 0 or self.call in self.fired:
            return None
        c = self.cfg["plan"][self.call]
        return c["fault"] if c["fault"] != "none" and c["at"] == self.done + 1 else None

    def _fire(self, interrupt):
        self.fired.add(self.call)
        if interrupt:
            raise KeyboardInterrupt()
        raise rng(self.cfg["seed"], "fault", self.call, self.done).choice(FAULTS)("as planned")

    def solve(self, model):
        kinds = [k for k in ("mech", "heat") if self.layouts[k].matches(model)]
        if len(kinds) != 1:
            raise AssertionError("neither a mechanical nor a thermal problem")
        kind = kinds[0]
        p = Posed(model, self.layouts[kind])
        self.asked = 0
        e = {"ev": "solve", "kind": kind, "outcome": "ok", "start": nested(p.shaped(p.start)),
             "objectives": p.objectives, "sense": p.sense}
        key = (kind, self.frames)
        check = self.cfg["check"]
        if {"posed", "loads", "undisturbed"} & set(check):
            a, b = self._probe(p, kind, "a"), self._probe(p, kind, "b")
            d = p.difference(a, b)
            self.diffs[key] = d
            if self.record:
                e["probe"] = {"a": nested(p.shaped(a)), "b": nested(p.shaped(b)), "diff": num(d)}
                if self.bare is not None:
                    e["probe"]["bare"] = num(self.bare.diffs.get(key, float("nan")))
                if self.twin is not None and key in self.twin.diffs:
                    e["probe"]["twin"] = num(self.twin.diffs[key])
        if self.record and "window" in check:
            e["clamped"] = p.shaped(p.clamped).tolist()
        if self.record and "clamps" in check:
            r = rng(self.cfg["seed"], "moves", kind, self.frames)
            e["values"] = nested(p.shaped(p.x0))
            e["moves"] = [nested(p.shaped(p.null @ np.array([r.uniform(-1, 1) for _ in p.x0]))) for _ in range(2)]
            e["freedom"] = int(round(float(np.trace(p.null))))
        if self.record and "window" in check:
            fs = [float(f) for f in self.cfg["factors"]]
            adm = [[bool(p.admits(k, x + f * self.cfg["r"])) for f in fs] for k, x in enumerate(p.start)]
            e["admissible"] = np.array(adm).reshape(self.layouts[kind].shape + (len(fs),)).tolist()
            if kind == "heat":
                e["negative"] = [bool(p.admits(k, -c)) for k in range(len(p.start)) for c in (1e-3,)]
        fault = self._fault()
        if fault and fault.startswith(kind):
            e["outcome"] = "raise"
            self.events.append(e)
            if "garbage" in fault:
                r = rng(self.cfg["seed"], "garbage", self.call)
                p.put([v.value if v.fixed else r.uniform(0, 3) for v in p.vars])
            self._fire("interrupt" in fault)
        x = self._answer(p, kind)
        for v, c in zip(p.vars, x):
            if not v.fixed:
                v.set_value(float(c), skip_validation=True)
        e["answer"] = nested(p.shaped(x))
        self.events.append(e)
        if kind == "heat":
            self.frames += 1
            self.done += 1

    # ------------------------------------------------------------------ loads
    def _load_fault(self, name, late):
        f = self._fault()
        if f and f.startswith(name) and ("late" not in f or late):
            self.events.append({"ev": "fault", "in": name})
            self._fire("interrupt" in f)

    def traction(self, t, x, y):
        self.asked += 1
        self._load_fault("traction", self.asked >= 3)
        return [poly(q)(t, x, y) for q in self.cfg["traction"]]

    def external(self, t):
        self._load_fault("external", True)
        return poly(self.cfg["external"])(t)

    # -------------------------------------------------------------------- run
    def snapshot(self, sim):
        res = []
        for s in sim.steps:
            if self.how == "plain":
                y = [nums(s.y(*p)) for p in self.grid.points]
            else:
                y = []
                for q in self.grid.points:
                    v, g, h = s.y(*q), s.y.strain(*q), s.y.hyper_strain(*q)
                    y.append([nums([v[i], g[i, 0], g[i, 1], h[i, 0, 0], h[i, 0, 1], h[i, 1, 1]]) for i in range(2)])
            res.append({"y": y, "theta": [num(s.theta(*q)) for q in self.theta_points]} | self.text(len(res), s))
        return res

    def text(self, k, step):
        """A digest of what a recorded step prints, now and when it was first seen."""
        now = hashlib.sha1(str(step).encode()).hexdigest()[:12]
        return {"text": now, "first": self.texts.setdefault(k, now)}

    def segments(self):
        """The parts of the boundary that are fixed."""
        if self.cfg.get("body"):
            return [[(p[0], p[1]) for p in side] for side in self.domain.sides(self.cfg["scale"])]
        w, h = self.extent()
        of = {"lower": [(0.0, 0.0), (w, 0.0)], "upper": [(0.0, h), (w, h)], "left": [(0.0, 0.0), (0.0, h)], "right": [(w, 0.0), (w, h)]}
        return [of[side] for side in self.cfg["fixed"]]

    def sides(self, sim):
        """Points along the fixed sides in the recorded states."""
        r = rng(self.cfg["seed"], "sides")
        eps = 1e-9 * self.cfg["scale"]
        for s in sim.steps:
            pts = []
            for (a, b) in self.segments():
                l = math.dist(a, b)
                on = [p for p in self.grid.points if math.dist(a, (p[0], p[1])) + math.dist((p[0], p[1]), b) < l + eps]
                for k in range(4):
                    f = r.random()
                    if k < 2:
                        pts.append(tuple(x + f * (y - x) for x, y in zip(a, b)))
                    else:   # a vertex
                        q = r.choice(on)
                        pts.append((q[0], q[1]))
            if pts:
                self.events.append({"ev": "side", "points": [nums(q) for q in pts], "y": [nums(s.y(*q)) for q in pts]})

    def extent(self):
        return max(p[0] for p in self.grid.points), max(p[1] for p in self.grid.points)

    def construct(self, domain=None, params=None):
        """Create the simulation."""
        c = self.cfg
        if params is None:
            params = SimulationParams(c["theta0"], c["r"], c["fps"], c["scale"], c["reg"], c["refine"])
        args = {}
        if self.loads and c["loads"]:
            args = {"external_temperature": self.external, "boundary_traction": self.traction}
        return Simulation(domain or self.domain, params, **args)

    def request(self, sim, k):
        """The k-th request: (True, None) or (False, about what was raised)."""
        self.call, self.done, self.asked = k, 0, 0
        n = self.cfg["plan"][k]["n"]
        try:
            if n == 1 and k % 2:
                sim.run()
            else:
                sim.run(n)
            return True, None
        except Timeout:
            raise
        except (Exception, KeyboardInterrupt) as err:  # pylint: disable=broad-except
            return False, {"error": type(err).__name__, "planned": k not in self.fired or planned(err)}

    def go(self):
        c = self.cfg
        ScriptedSolver.now = self.solve
        self.events.append({"ev": "new"})
        sim = self.construct()
        self.events.append({"ev": "return", "ok": True, "states": self.snapshot(sim)})
        for k, req in enumerate(c["plan"]):
            self.events.append({"ev": "run", "n": req["n"]})
            ok, why = self.request(sim, k)
            # the first states are only looked at again once in a while
            self.events.append({"ev": "return", "ok": ok, "states": self.snapshot(sim)} | (why or {}))
        if "clamps" in c["check"] and self.record:
            self.sides(sim)
        self.states = self.snapshot(sim)
        return sim


# ------------------------------------------------------------------ scenarios
GRIDS = [(1, 1, 0.5), (1, 1, 1), (2, 1, 1), (0.5, 1, 0.5), (0.75, 0.5, 0.25), (0.5, 1.5, 0.5), (1.3, 1, 0.5), (0.6, 0.3, 0.3)]
SMALL = [(1, 1, 1), (1, 1, 1), (0.5, 0.5, 0.5), (1, 0.5, 0.5), (2, 1, 1)]
SIDES = ["lower", "right", "upper", "left"]
FPS = [1, 3, 7, 10, 0.5, 2.5, 24, 60]


MOODS = [["all"], ["all"], ["all", "still"], ["still", "mech-still", "heat-still", "all"], ["few", "first", "all"], ["heat-still", "mech-still"], ["still", "still", "all"]]


def _fix(r):
    k = r.choice([0, 1, 1, 2, 2, 3, 4])
    sides = r.sample(SIDES, k)
    if k == 0:
        return None, []
    if k == 1 and r.random() < 0.5:
        return sides[0], sides
    return sides + ([sides[0]] if r.random() < 0.2 else []), sides


def _load(r, terms, lo, hi, time_only=False, fps=None):
    """Terms of a load; given the frame rate, some are switched on or off between two frames."""
    res = [[r.randint(int(lo * 8), int(hi * 8)) / 8, r.choice([0, 0, 1, 1, 2]), 0 if time_only else r.choice([0, 1, 2]), 0 if time_only else r.choice([0, 1, 2])] for _ in range(terms)]
    if fps is not None and r.random() < 0.5:
        cut = (r.choice([0, 0, 1, 2]) + 0.43) / fps
        off = r.random() < 0.6
        res = [q + ([-1, cut] if off else [cut, 1000]) for q in res]
    return res


def _config(r, c1):
    w, h, s = r.choice(SMALL if c1 else GRIDS)
    fix, fixed = _fix(r)
    refine = None
    if c1:
        refine = r.choice([1, 2] if s < max(w, h) else [1, 2, 2, 3])
    return {
        "width": w, "height": h, "scale": s, "fix": fix, "fixed": fixed,
        "theta0": r.choice([0, 0.0, 0.25, 1, 0.5]), "r": r.choice([0.05, 0.5, 0.125, 2.0, 10]),
        "fps": r.choice(FPS), "reg": r.choice([1, 0.5, 0.01]) if c1 else None, "refine": refine,
        "seed": r.randrange(1 << 30), "traction": [[], []], "external": [], "loads": False,
        "plan": [{"n": 1, "at": 0, "fault": "none"}], "check": [], "factors": [], "heat": 1, "strength": 1, "extreme": "",
    }


FAR = ([("size", k) for k in (1 / 64, 16, 64)] + [("heat", k) for k in (1 / 1024, 1 / 64, 32, 128, 16384)] + [("rate", k) for k in (1 / 64, 1000)]
       + [("radius", k) for k in (1e-4, 1e3)] + [("strength", k) for k in (1 / 1024, 2 ** 17)])


def _extreme(r, c):
    """One of the quantities is far from one: each in turn, in some order."""
    if not getattr(r, "far", None):
        r.far = r.sample(FAR, len(FAR))
    what, k = r.far.pop()
    if what == "size":
        c.update(width=c["width"] * k, height=c["height"] * k, scale=c["scale"] * k)
    elif what == "heat":
        c.update(heat=k, theta0=(c["theta0"] + (k > 1000)) * k, r=c["r"] * k)
    elif what == "rate":
        c["fps"] = k
    elif what == "radius":
        c["r"] = k
    else:
        c["strength"] = k
    c["extreme"] = what


def _elsewhere(r, c, c1):
    """On a body that is not a rectangle."""
    c.update(scale=r.choice([1, 1, 0.5]), body=any_body(r, (1 if r.random() < 0.7 else 2) if c1 else 9))
    if c1:
        c["refine"] = r.choice([1, 1, 2])


def _plan(ns):
    return [{"n": n, "at": 0, "fault": "none"} for n in ns]


def _cases(work):
    path = os.path.join(work, "MC_Simulation.cases")
    seen = {l for l in open(path)} if os.path.exists(path) else set()
    return [json.loads(l) for l in sorted(seen)]


def scenarios(prop, tier, seed, work):
    r = rng(prop, seed)
    thorough = tier == "thorough"
    res = []

    def add(name, c1, tiny=False, body=False, **kw):
        c = _config(r, c1)
        if body:
            _elsewhere(r, c, c1)
        if tiny and not body and r.random() < 0.8:
            c.update(width=1, height=1, scale=1)
        if r.random() < 0.3 and not (prop == "C02" and c1):
            _extreme(r, c)
        c.update(kw)
        if c["loads"] and not c1:
            c.update(traction=[_load(r, len(q), -2, 2, fps=c["fps"]) for q in c["traction"]],
                     external=_load(r, len(c["external"]), 0, 2, True, fps=c["fps"]))
            c.update({k: [[q[0] * c["strength"]] + q[1:] for q in c[k]] for k in ["external"]},
                     traction=[[[q[0] * c["strength"]] + q[1:] for q in g] for g in c["traction"]])
        c["moods"] = r.choice(MOODS)
        c["id"] = f"{name}{'-body' if body else ''}{'-' + c['extreme'] if c['extreme'] else ''}-{len(res)}-{'c1' if c1 else 'plain'}"
        c["spec"] = "TraceSim"
        c["cost"] = (30 if c1 else 1) * (1 + sum(x["n"] for x in c["plan"]))
        c["limit"] = 400
        res.append(c)
        return c

    if prop == "C01":
        for k in range(600 if thorough else 70):
            ns = r.choice([[1], [3], [1, 1, 1], [2, 1], [1, 2], [4], [0, 2], [2, 2, 1], [1, -1, 1], [3, 0, 3], [5, 1], [2, 3, 4]])
            add("chain", False, body=k % 5 == 4, plan=_plan(ns), check=["posed"])
        for k in range(60 if thorough else 10):
            add("chain", True, body=k % 3 == 2, plan=_plan(r.choice([[1], [2], [1, 1]])), check=["posed"])
        # long histories
        for ns in [[30], [1] * 12 + [18], [16, 17]] + ([[140], [70, 71], [1] * 70, [45], [300]] if thorough else []):
            c = add("long", False, plan=_plan(ns), check=["posed"])
            c.update(width=1, height=1, scale=1, factors=[])
    elif prop == "C02":
        for k in range(800 if thorough else 90):
            add("loads", False, body=k % 4 == 3, plan=_plan(r.choice([[1], [3], [1, 1], [2, 1], [4]])), check=["loads"], loads=True,
                traction=[_load(r, r.choice([1, 2, 2, 3]), -2, 2) for _ in range(2)],
                external=_load(r, r.choice([1, 2]), 0, 2, True))
        for k in range(40 if thorough else 8):
            add("loads", True, plan=_plan(r.choice([[1], [2]])), check=["loads"], loads=True,
                traction=[_load(r, 2, 1, 3) for _ in range(2)], external=_load(r, 1, 1, 3, True))
    elif prop == "C03":
        cases = _cases(work)
        one = {}
        for c in cases:
            one.setdefault(json.dumps(c[0]), c[0])
        plans = [[c] for c in one.values()]
        r.shuffle(cases)
        two = [c for c in cases if len(c) > 1 and any(x["fault"] != "none" for x in c)]
        plans += two[: 3000 if thorough else 120]
        for p in plans:
            p = [dict(x) for x in p] + [{"n": r.choice([1, 2]), "at": 0, "fault": "none"}]
            add("faults-" + "-".join(x["fault"] for x in p[:-1]), False, plan=p, check=["start", "undisturbed"], loads=True, tiny=True,
                traction=[_load(r, 2, -2, 2) for _ in range(2)], external=_load(r, 2, 0, 2, True))
        kinds = ["mech", "mech-garbage", "mech-interrupt", "heat", "heat-garbage", "heat-interrupt", "traction", "traction-late", "external", "external-interrupt"]
        for k in range(400 if thorough else 20):
            # late in the history, or again and again
            if k % 2:
                n = r.randint(4, 9)
                p = [{"n": n, "at": r.randint(3, n), "fault": r.choice(kinds)}, {"n": r.randint(2, 4), "at": 2, "fault": r.choice(kinds)}]
            else:
                p = [{"n": r.randint(1, 3), "at": 1, "fault": r.choice(kinds)} for _ in range(r.randint(3, 5))]
            add("faults-many", False, body=k % 4 == 3, plan=p + [{"n": r.choice([1, 2]), "at": 0, "fault": "none"}], check=["start", "undisturbed"], loads=True, tiny=True,
                traction=[_load(r, 2, -2, 2) for _ in range(2)], external=_load(r, 2, 0, 2, True))
        for k in range(60 if thorough else 8):
            f = r.choice(["mech", "mech-garbage", "heat", "heat-garbage", "heat-interrupt", "mech-interrupt"])
            n = r.choice([1, 2])
            add("faults-" + f, True, plan=[{"n": n, "at": r.randint(1, n), "fault": f}, {"n": 1, "at": 0, "fault": "none"}],
                check=["start", "undisturbed"], loads=True, tiny=True)
    elif prop == "C04":
        n = 0
        for k in range(500 if thorough else 64):
            add("sides", False, body=k % 4 == 3, plan=_plan(r.choice([[1], [2], [1, 1]])), check=["clamps"])
        for k in range(100 if thorough else 22):
            add("sides", True, body=k % 3 == 2, plan=_plan([1]), check=["clamps"])
    elif prop == "C05":
        fs = [-1.000001, -0.999999, -0.5, -0.001, 0.001, 0.5, 0.999999, 1.000001, -2, 2]
        for k in range(600 if thorough else 80):
            add("window", False, body=k % 8 == 7, plan=_plan(r.choice([[1], [3], [1, 1, 1], [2, 1]])), check=["start", "window"], factors=fs,
                r=r.choice([0.05, 0.5, 0.125, 2.0, 10, 1e-3, 0.01]))
        for k in range(60 if thorough else 12):
            add("window", True, plan=_plan(r.choice([[1], [2]])), check=["start", "window"], factors=fs)
        # after failures, too
        for k in range(300 if thorough else 40):
            n = r.choice([1, 2])
            f = r.choice(["mech-garbage", "heat-garbage", "mech-garbage", "heat-garbage", "mech-interrupt", "external", "traction-late"])
            plan = [{"n": n, "at": r.randint(1, n), "fault": f}] + _plan([1])
            add("window-after-" + f, k % 10 == 9, plan=r.choice([plan, plan[:1] + plan]), check=["start", "window"], factors=fs,
                r=r.choice([0.05, 0.5, 2.0]), tiny=True, loads=k % 10 != 9)
    return res


def run(scn):
    install()
    c = scn
    twin = bare = None
    if "undisturbed" in c["check"]:
        # the same answers, no faults, and enough steps
        twin = Run(c | {"plan": _plan([1] * (sum(x["n"] for x in c["plan"]) + 1))}, faults=False, record=False)
        twin.go()
    if "loads" in c["check"]:
        bare = Run(c, loads=False, record=False)
        bare.go()
    s = Run(c)
    s.twin, s.bare = twin, bare
    s.go()
    tr = {"events": s.events} | header(s)
    if twin is not None:
        tr["clean"] = twin.states
    return tr


def term(t):
    """A term of a load as the specification reads it."""
    return [num(t[0]), t[1], t[2], t[3]] + nums(t[4:] or [-1, 1000])


def header(s):
    """What a trace tells about the simulation."""
    c = s.cfg
    w, h = s.extent()
    tr = {
        "kind": s.how,
        "points": [nums(p) for p in s.grid.points],
        "triangles": [[int(x) for x in t] for t in s.grid.triangles],
        "outer": [[int(x) for x in t] for t in (s.refined or s.grid).boundary.edges],
        "free": [[int(x) for x in t] for t in s.grid.neumann_boundary.edges],
        "sides": [[nums(p) for p in side] for side in s.segments()], "width": num(w), "height": num(h), "fps": num(c["fps"]), "r": num(c["r"]),
        "reg": num(c["reg"]) if c["reg"] is not None else "0", "theta0": num(c["theta0"]),
        "traction": [[term(t) for t in q] for q in (c["traction"] if c["loads"] else [[], []])],
        "external": [term(t) for t in (c["external"] if c["loads"] else [])],
        "factors": nums(c["factors"]), "check": c["check"],
        "magnitude": num(10.0 * (1 + c["fps"])),
    }
    if s.refined is not None:
        tr["fine_points"] = [nums(p) for p in s.refined.points]
        tr["fine_triangles"] = [[int(x) for x in t] for t in s.refined.triangles]
    return tr
