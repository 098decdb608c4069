"""C06 - C08: records how the objectives of single mechanical and thermal steps change between
states of their unknowns, on arbitrary triangulations (plain) and on refined grids (regularised)."""

import math
import numpy as np
from bodies import Body, any_body
from common import nested, num, nums, rng
from fem import grid_of, mesh
from sim import Layout, Posed, ScriptedSolver, identity
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams


def dyadic(x, bits=14):
    k = 1 << bits
    return np.round(np.asarray(x, dtype=float) * k) / k


def altitude(pts, tris):
    m = math.inf
    for t in tris:
        a, b, c = (np.array([float(x) for x in pts[i]]) for i in t)
        area = abs((b - a)[0] * (c - a)[1] - (b - a)[1] * (c - a)[0])
        m = min(m, area / max(np.linalg.norm(b - a), np.linalg.norm(c - a), np.linalg.norm(c - b)))
    return m


def affine(r):
    """A linear map with positive determinant: rotations, wells, stretches, anything."""
    a = r.uniform(0, 7)
    Q = np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
    k = r.randrange(5)
    if k == 0:
        return np.eye(2)
    if k == 1:
        return Q
    if k == 2:
        return Q @ np.array([[1, r.choice([-0.5, 0.5])], [0, 1]])
    while True:
        F = np.eye(2) + np.array([[r.uniform(-0.7, 0.7) for _ in range(2)] for _ in range(2)])
        if np.linalg.det(F) > 0.3:
            return F if k == 3 else Q @ F


class Random:
    """Random data on a pair of grids."""

    def __init__(self, r, grid, refined):
        self.r, self.grid, self.refined = r, grid, refined
        self.p = np.array([[float(q[0]), float(q[1])] for q in grid.points])
        self.h = altitude(self.p, grid.triangles)

        self.held = None           # entries that have to keep the values of the identity

    def deformation(self, F=None):
        r = self.r
        F = affine(r) if F is None else F
        if self.held is not None and np.any(self.held):
            F = np.eye(2)
        n = len(self.p)
        small = float(np.linalg.svd(F)[1][-1])
        amp = (0.15 if self.refined is None else 0.05) * self.h * small
        pos = self.p @ F.T
        if self.held is None or not np.any(self.held):
            far = min(1.0, float(np.ptp(self.p)))
            pos = pos + far * np.array([r.uniform(-2, 2), r.uniform(-2, 2)])
        pos = pos + np.array([[r.uniform(-amp, amp) for _ in range(2)] for _ in range(n)])
        # keep enough digits for small meshes
        bits = 14 + max(0, int(-math.log2(self.h)))
        if self.refined is None:
            return self.hold(dyadic(pos, bits))
        res = np.zeros((n, 2, 6))
        for v in range(n):
            for i in range(2):
                res[v, i] = [pos[v, i], *(F[i] + np.array([r.uniform(-0.08, 0.08) * small for _ in range(2)])),
                             *(r.uniform(-0.1, 0.1) * small / self.h for _ in range(3))]
        return self.hold(dyadic(res, bits))

    def hold(self, y):
        return y if self.held is None else np.where(self.held, identity(self.grid.points, "plain" if self.refined is None else "c1"), y)

    def temperature(self):
        n = len((self.refined or self.grid).points)
        how = self.r.randrange(4)
        top = self.r.choice([0.1, 1.5, 5, 1e-3, 300])
        c = self.r.choice([self.r.uniform(0, 2), self.r.uniform(2, 400)])
        return dyadic([c if how == 0 else 0.0 if self.r.random() < 0.1 else self.r.uniform(0, top) for _ in range(n)], 12)


def scenarios(prop, tier, seed, work):
    thorough = tier == "thorough"
    res = []

    def add(kind, how, n, pairs, cost, **kw):
        for k in range(n):
            res.append({"id": f"{how}-{kind}{'-fine-%d' % kw['fine'] if kw else ''}-{k}", "spec": "TraceEnergy", "kind": kind, "how": how, "pairs": pairs,
                        "thin": k % 4 == 1, "seed": seed, "cost": cost, "limit": 400, "k": k} | kw)

    if prop == "C06":
        add("mech", "plain", 600 if thorough else 80, 3, 1)
    elif prop == "C07":
        add("heat", "plain", 600 if thorough else 80, 3, 2)
    else:
        add("mech", "c1", 120 if thorough else 14, 1, 10)
        add("heat", "c1", 120 if thorough else 14, 1, 10)
        # a cell or two refined often
        for kind in ("mech", "heat"):
            for n in [3, 4, 5] + ([6, 7, 8] if thorough else []):
                add(kind, "c1", 3 if thorough else 1, 1, 5 * n * n, fine=n)
    return res


def run(scn):
    r = rng(scn["id"], scn["seed"])
    how, kind = scn["how"], scn["kind"]
    refined = None
    if how == "plain":
        if scn["k"] % 3 == 0:
            s = r.choice([1, 0.5, 0.25, 2.0 ** -18, 2.0 ** 14])
            grid = RectangleDomain(r.choice([1, 2]) * s, r.choice([1, 2]) * s, r.choice([None, "left", ["lower", "upper"]])).grid(s)
        else:
            pts, tris, _ = mesh(r, scn["thin"])
            grid = grid_of(r, pts, tris)
            if len(tris) < 3 or r.random() < 0.7:   # nothing is fixed
                grid.dirichlet_boundary.vertices.clear()
                grid.dirichlet_boundary.edges.clear()
    else:
        s = r.choice([1, 0.5, 2, 2.0 ** -9, 2.0 ** 8])
        body = Body(**any_body(r, 1)) if scn["k"] % 3 == 1 else None
        nx, ny = r.choice([(1, 1), (1, 1), (2, 1)]) if "fine" not in scn else (1, 1)
        dom = body or RectangleDomain(nx * s, ny * s, r.choice([None, None, "left", ["lower", "upper"]]))
        grid = dom.grid(s)
        if body is not None:
            nx = 1
            if r.random() < 0.5:   # nothing is fixed
                grid.dirichlet_boundary.vertices.clear()
                grid.dirichlet_boundary.edges.clear()
        refined = dom.refine(grid, scn.get("fine") or r.choice([1, 2] if nx == 1 else [1]))
    fps = r.choice([1, 0.5, 10, 7, 30, 2.5, 100])
    reg = r.choice([1, 0.5, 0.01, 0.25, 3]) if how == "c1" else None
    layout = Layout(kind, how, grid, refined)
    data = Random(r, grid, refined)
    caught = []

    def catch(model):
        caught.append(Posed(model, layout))

    big = 1e3
    events = []
    ext = r.choice([0, 0.5, 1.0, 2.0])
    prev_y, y, prev_theta = data.deformation(), data.deformation(), data.temperature()
    if kind == "mech":
        step = mechanical_step(ScriptedSolver(), grid, MechanicalStepParams(1.0, big, fps, reg), refined, lambda t, a, b: [0.0, 0.0])
        ScriptedSolver.now = catch
        step.solve()
        p = caught.pop()
        data.held = p.shaped(p.clamped)
    else:
        step = thermal_step(ScriptedSolver(), grid, prev_y, y, prev_theta, ThermalStepParams(big, fps, reg), lambda t: ext, refined)
    # either the data the step was created with or others handed in later
    fresh = r.random() < 0.6
    for k in range(scn["pairs"]):
        F = affine(r)
        # the increment of the deformation is sometimes small, sometimes large
        small = r.random() < 0.5
        if k > 0 or kind == "mech" or fresh:
            prev_y, prev_theta = data.deformation(F), data.temperature()
            y = data.deformation(F if small else None)
            step.update_prev_y(prev_y)
            step.update_prev_theta(prev_theta)
            if kind == "heat":
                step.update_y(y)
        ScriptedSolver.now = catch
        step.solve()
        p = caught.pop()
        if kind == "mech":
            raw = data.deformation(F if small else None), data.deformation(F)
        else:
            raw = data.temperature(), data.temperature()
        a, b = (np.where(p.clamped, p.x0, p.towards(x)) for x in raw)
        e = {"ev": kind, "prev_y": nested(prev_y), "prev_theta": nested(prev_theta),
             "a": nested(p.shaped(a)), "b": nested(p.shaped(b)), "diff": num(p.difference(a, b))}
        if kind == "heat":
            e["y"] = nested(y)
            e["ext"] = num(ext)
        events.append(e)
    tr = {
        "kind": how, "events": events, "fps": num(fps), "reg": num(reg) if reg is not None else "0",
        "points": [nums(p) for p in grid.points], "triangles": [[int(x) for x in t] for t in grid.triangles],
        "outer": [[int(x) for x in t] for t in (refined or grid).boundary.edges],
    }
    if refined is not None:
        tr["fine_points"] = [nums(p) for p in refined.points]
        tr["fine_triangles"] = [[int(x) for x in t] for t in refined.triangles]
    return tr
