"""C17 - C20: records interpolations on arbitrary triangulations and their refinements, and
integrals over triangles and edges."""

import math
from bodies import Body, any_body
from common import call, grid_value, nested, num, nums, rng
from tvemoves_rufbad.domain import Grid, Boundary, RectangleDomain
from tvemoves_rufbad.tensors import Vector, BarycentricCoordinates

TAGS = {"C17": "p1", "C18": "c1", "C19": "refined", "C20": "integral"}


# ------------------------------------------------------------------ meshes
def mesh(r, thin, extreme=True):
    """A random triangulation: points and triangles (named from any vertex, of either orientation)."""
    nx, ny = r.choice([(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)])
    jitter = 0.3
    pts = [[i + r.uniform(-jitter, jitter), j + r.uniform(-jitter, jitter)] for j in range(ny + 1) for i in range(nx + 1)]
    # an affine map, orientation preserving
    a = r.uniform(0, 7)
    s1 = 10 ** r.uniform(-1, 1)
    s2 = s1 * (10 ** r.uniform(-1.2, 1.2) if thin else 10 ** r.uniform(-0.3, 0.3))
    sh = r.uniform(-1, 1)
    off = [r.uniform(-3, 3), r.uniform(-3, 3)]
    bits = 20

    def q(x):
        return round(x * (1 << bits)) / (1 << bits)

    def m(p):
        x, y = s1 * (p[0] + sh * p[1]), s2 * p[1]
        return [q(math.cos(a) * x - math.sin(a) * y + off[0]), q(math.sin(a) * x + math.cos(a) * y + off[1])]

    pts = [m(p) for p in pts]
    unit = 1.0
    if extreme and r.random() < 0.2:   # very small or very large
        unit = 2.0 ** r.choice([-40, -25, -20, -12, 12, 20, 25, 40])
        pts = [[x * unit for x in p] for p in pts]
    tris = []
    v = lambda i, j: j * (nx + 1) + i
    for i in range(nx):
        for j in range(ny):
            A, B, C, D = v(i, j), v(i + 1, j), v(i + 1, j + 1), v(i, j + 1)
            tris += [(A, B, C), (A, C, D)] if r.random() < 0.5 else [(A, B, D), (B, C, D)]
    perm = list(range(len(pts)))
    r.shuffle(perm)
    new = [None] * len(pts)
    for k, p in enumerate(perm):
        new[p] = pts[k]
    tris = [tuple(perm[x] for x in t) for t in tris]
    tris = [t[k:] + t[:k] for t in tris for k in [r.randrange(3)]]
    if r.random() < 0.5:   # nothing asks for an orientation
        tris = [t if r.random() < 0.5 else t[::-1] for t in tris]
    r.shuffle(tris)
    return new, tris, unit


def grid_of(r, pts, tris):
    count = {}
    for t in tris:
        for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
            count.setdefault(frozenset((a, b)), []).append((a, b))
    edges = [r.choice([es[0], es[0][::-1]]) for es in count.values()]
    outer = [e for e in edges if len(count[frozenset(e)]) == 1]
    r.shuffle(edges)
    fixed = outer[: len(outer) // 2]
    part = lambda es: Boundary(sorted({x for e in es for x in e}), list(es))
    return Grid(
        list(range(len(pts))), edges, tris, part(outer), part(fixed), part(outer[len(outer) // 2:]),
        [Vector(list(p)) for p in pts],
    )


def bary(r, count):
    ls = [(1 / 3, 1 / 3), (1.0, 0.0), (0.0, 1.0), (0.0, 0.0), (0.5, 0.5), (0.0, 0.5), (0.25, 0.5)]
    while len(ls) < count:
        a, b = sorted((r.random(), r.random()))
        ls.append((a, b - a))
    r.shuffle(ls)
    return [BarycentricCoordinates(*l) for l in ls[:count]]


def values(r, kind, n, how, unit=1.0):
    size = r.choice([1, 1, 1, 2.0 ** 30, 2.0 ** -30])
    if kind == "p1":
        d = [size * grid_value(r, -3, 3) for _ in range(n)]
    else:
        d = [[size * grid_value(r, -3, 3) / unit ** o for o in (0, 1, 1, 2, 2, 2)] for _ in range(n)]
    return d, data_for(how, d)


def data_for(how, d):
    """The data as they are handed over: numbers or the entries of a model."""
    if how != "var":
        return d
    import pyomo.environ as pyo

    m = pyo.ConcreteModel()
    flat = [x for row in d for x in (row if isinstance(row, list) else [row])]
    m.v = pyo.Var(range(len(flat)))
    for k, x in enumerate(flat):
        m.v[k].set_value(x)
    it = iter(range(len(flat)))
    return [[m.v[next(it)] for _ in row] if isinstance(row, list) else m.v[next(it)] for row in d]


def light(g):
    return {
        "points": [nums(p) for p in g.points],
        "triangles": [[int(x) for x in t] for t in g.triangles],
        "edges": [[int(x) for x in t] for t in g.edges],
    }


def reject(what, f, *args):
    ok, _ = call(f, *args)
    return {"ev": "reject", "what": what, "outcome": "ok" if ok else "error"}


# ------------------------------------------------------------------ scenarios
def scenarios(prop, tier, seed, work):
    r = rng(prop, seed)
    thorough = tier == "thorough"
    res = []
    if prop in ("C17", "C18"):
        kind = TAGS[prop]
        n = {"C17": (120, 2500), "C18": (48, 1200)}[prop][thorough]
        for k in range(n):
            how = "var" if k % 4 == 3 else "number"
            res.append({"id": f"{kind}-{k}-{how}", "kind": kind, "how": how, "what": "general", "thin": k % 3 == 1})
        for k in range(n // 8):
            res.append({"id": f"{kind}-rectangle-{k}", "kind": kind, "how": "number", "what": "rectangle"})
        res.append({"id": f"{kind}-rejections", "kind": kind, "what": "rejections"})
    elif prop == "C19":
        n = 500 if thorough else 40
        for k in range(n):
            c = {
                "kind": r.choice(["p1", "c1"]), "how": r.choice(["number", "number", "var"]),
                "nx": r.choice([1, 1, 2, 3]), "ny": r.choice([1, 2, 2, 1]), "scale": r.choice([1, 0.5, 0.1, 0.3, 1 / 3, 2, 2e-6, 3e5]),
                "chain": r.choice([[1], [2], [2], [3], [4], [2, 2], [3, 2], [1, 2], [2, 3], [5], [2, 1, 2]]),
                "two": r.random() < 0.3,
            }
            res.append({"id": f"refined-{k}-{c['kind']}-{'x'.join(map(str, c['chain']))}", "what": "refined", "cost": 9, **c})
    else:
        for d in range(1, 6):
            res.append({"id": f"rule-{d}", "what": "rule", "degree": d})
        res.append({"id": "rule-vertex", "what": "rule", "degree": 0})
        for n in list(range(1, 9)) + [9, 10, 11, 12, 13, 16, 20]:
            res.append({"id": f"edgerule-{n}", "what": "edgerule", "degree": n})
        for k in range(400 if thorough else 40):
            res.append({"id": f"volume-{k}", "what": "volume", "degree": 1 + k % 6, "thin": k % 3 == 1})
        for k in range(400 if thorough else 40):
            res.append({"id": f"line-{k}", "what": "line", "degree": 1 + k % 6, "thin": k % 3 == 1})
        for k in range(40 if thorough else 8):
            res.append({"id": f"accept-{k}", "what": "accept"})
    for s in res:
        s.update(spec="TraceFem", seed=seed, tier=tier)
    return res


def run(scn):
    r = rng(scn["id"], scn["seed"])
    w = scn["what"]
    if w in ("general", "rectangle"):
        return run_interpolation(scn, r)
    return {"rejections": run_rejections, "refined": run_refined, "rule": run_rule, "edgerule": run_edgerule,
            "volume": run_volume, "line": run_line, "accept": run_accept}[w](scn, r)


def shadow(r, kind, g, how="number"):
    """Two interpolations on a mesh that is numbered like the given one but looks different."""
    from tvemoves_rufbad.interpolation import Deformation

    k = r.choice([2.0, -0.5, 1 + 2.0 ** -24, 1.0])
    m = [[k, 0.0], [r.choice([0.0, 0.25]), abs(k) if k < 0 else 1.0]]
    pts = [[m[0][0] * p[0] + m[0][1] * p[1] + 0.5, m[1][0] * p[0] + m[1][1] * p[1]] for p in g.points]
    part = lambda b: Boundary(list(b.vertices), [tuple(e) for e in b.edges])
    h = Grid(list(g.vertices), [tuple(e) for e in g.edges], [tuple(x) for x in g.triangles], part(g.boundary),
             part(g.dirichlet_boundary), part(g.neumann_boundary), [Vector(p) for p in pts])
    f = [build(kind, h, values(r, kind, len(pts), how)[1]) for _ in range(2)]
    return Deformation(*f)


def visit(kind, y, t, l):
    """Use another interpolation, whatever comes out of it."""
    for f in (y[0], y[0].gradient, y.strain) + ((y[0].hessian,) if kind == "c1" else ()):
        call(f, t, l)


def build(kind, g, d):
    from tvemoves_rufbad.interpolation import P1Interpolation, C1Interpolation

    return (P1Interpolation if kind == "p1" else C1Interpolation)(g, d)


def sample(kind, f, t, l, which=("value", "grad", "hess"), deformation=False):
    s = {"l": nums(l)}
    if "value" in which:
        s["value"] = nested(f(t, l))
    if "grad" in which:
        s["grad"] = nested((f.strain if deformation else f.gradient)(t, l))
    if "hess" in which and kind == "c1":
        s["hess"] = nested((f.hyper_strain if deformation else f.hessian)(t, l))
    return s


def run_interpolation(scn, r):
    from tvemoves_rufbad.interpolation import Deformation, EuclideanDeformation, P1BoundaryInterpolation

    kind = scn["kind"]
    unit = 1.0
    if scn["what"] == "rectangle":
        g = RectangleDomain(2.0, 1.0, "left").grid(r.choice([0.5, 1.0]))
    else:
        pts, tris, unit = mesh(r, scn["thin"])
        g = grid_of(r, pts, tris)
    d, given = values(r, kind, len(g.points), scn["how"], unit)
    d2, given2 = values(r, kind, len(g.points), scn["how"], unit)
    f, f2 = build(kind, g, given), build(kind, g, given2)
    y = Deformation(f, f2)
    many = kind == "p1"
    events = []
    tris = list(g.triangles)
    r.shuffle(tris)
    other = shadow(r, kind, g)
    for t in tris if many else tris[:3]:
        t = tuple(t)
        ls = bary(r, 5 if many else 3)
        for l in ls[:2]:   # another interpolation in between
            visit(kind, other, t, l)
        events.append({"ev": "tri", "tri": list(t), "samples": [sample(kind, f, t, l) for l in ls]})
    t = tuple(tris[0])
    events.append({"ev": "tri", "tri": list(t), "two": 1, "samples": [sample(kind, y, t, l, deformation=True) for l in bary(r, 3)]})
    events.append({"ev": "tri", "tri": list(t), "samples": [sample(kind, y[0], t, l) for l in bary(r, 1)]})
    # at Euclidean points inside a triangle
    e = EuclideanDeformation(f, f2)
    t = tuple(tris[-1])
    ls = [BarycentricCoordinates(*x) for x in ((0.25, 0.5), (0.3, 0.1))]
    ss = []
    for l in ls:
        p = [sum(l[i] * g.points[t[i]][c] for i in range(3)) for c in range(2)]
        s = {"l": nums(l), "value": nested(e(*p)), "grad": nested(e.strain(*p))}
        if kind == "c1":
            s["hess"] = nested(e.hyper_strain(*p))
        ss.append(s)
    events.append({"ev": "tri", "tri": list(t), "two": 1, "samples": ss})
    # edges
    params = [0.0, 1.0, 0.5, 0.125] + [r.random() for _ in range(2)]
    edges = list(g.edges)
    r.shuffle(edges)
    for edge in edges[: 8 if many else 4]:
        edge = tuple(edge) if r.random() < 0.5 else tuple(edge)[::-1]
        ss = r.sample(params, 3)
        call(other.on_edge, edge, ss[0])
        call(other.on_edge, edge[::-1], ss[1])
        events.append({"ev": "edge", "by": "on_edge", "edge": list(edge), "samples": [{"s": num(s), "value": num(f.on_edge(edge, s))} for s in ss]})
    events.append({"ev": "edge", "by": "deformation", "two": 1, "edge": list(edges[0]),
                   "samples": [{"s": num(s), "value": nested(y.on_edge(tuple(edges[0]), s))} for s in params[:3]]})
    if kind == "p1":
        for b in (g.boundary, g.dirichlet_boundary, g.neumann_boundary):
            bf = P1BoundaryInterpolation(b, {v: given[v] for v in r.sample(b.vertices, len(b.vertices))})   # in any order
            for edge in b.edges[:4]:
                events.append({"ev": "edge", "by": "boundary interpolation", "edge": list(edge),
                               "samples": [{"s": num(s), "value": num(bf(edge, s))} for s in r.sample(params, 3)]})
    return {"kind": kind, **light(g), "data": nested_data(d), "data2": nested_data(d2), "events": events}


def nested_data(d):
    return [nums(x) if isinstance(x, list) else num(x) for x in d]


def run_rejections(scn, r):
    from tvemoves_rufbad.interpolation import P1Interpolation, C1Interpolation, P1BoundaryInterpolation
    import tvemoves_rufbad.bell_finite_element as bell

    events = []
    for _ in range(6):
        pts, tris, _ = mesh(r, False)
        g = grid_of(r, pts, tris)
        n = len(pts)
        wrong = [0, 1, n - 1, n + 1, 2 * n]
        if scn["kind"] == "p1":
            for m in wrong:
                events.append(reject(f"{'fewer' if m < n else 'more'} values than vertices", P1Interpolation, g, [1.0] * m))
            for b in (g.boundary, g.dirichlet_boundary, g.neumann_boundary):
                vs = list(b.vertices)
                events.append(reject("a boundary value is missing", P1BoundaryInterpolation, b, {v: 1.0 for v in vs[1:]}))
                events.append(reject("no boundary values", P1BoundaryInterpolation, b, {}))
                events.append(reject("too many boundary values", P1BoundaryInterpolation, b, {v: 1.0 for v in vs + [n + 3]}))
        else:
            for m in wrong:
                events.append(reject(f"{'fewer' if m < n else 'more'} data than vertices", C1Interpolation, g, [[1.0] * 6] * m))
            for m in (0, 1, 5, 7, 12):
                k = r.randrange(n)
                events.append(reject(f"{m} data at a vertex", C1Interpolation, g, [[1.0] * (m if i == k else 6) for i in range(n)]))
            events.append(reject("six data in total per pair of vertices", C1Interpolation, g, [[1.0] * (5 if i == 0 else 7 if i == 1 else 6) for i in range(n)]))
            tv = tuple(Vector(p) for p in pts[:3])
            l = BarycentricCoordinates(0.25, 0.25)
            for m in (0, 6, 17, 19):
                v = Vector([1.0] * m)
                for name in ("bell_interpolation", "bell_interpolation_gradient", "bell_interpolation_hessian"):
                    events.append(reject(f"{name} with {m} parameters", getattr(bell, name), tv, l, v))
            for m in (6, 11, 13):
                events.append(reject(f"edge with {m} parameters", bell.bell_interpolation_on_edge, tv[:2], 0.5, Vector([1.0] * m)))
    return {"kind": scn["kind"], "events": events}


def run_refined(scn, r):
    from tvemoves_rufbad.interpolation import Deformation, RefinedInterpolation

    kind, s = scn["kind"], scn["scale"]
    dom = RectangleDomain(scn["nx"] * s, scn["ny"] * s, r.choice([None, "left", ["lower", "right"]]))
    body = r.random() < 0.25
    if body:
        dom = Body(**any_body(r, 4))
    base = dom.grid(s)
    if r.random() < 0.2 and len(scn["chain"]) > 1:  # data that live on a refined grid
        base, chain = dom.refine(base, scn["chain"][0]), scn["chain"][1:]
    else:
        chain = scn["chain"]
    d, given = values(r, kind, len(base.points), scn["how"], s)
    d2, given2 = values(r, kind, len(base.points), scn["how"], s)
    f, f2 = build(kind, base, given), build(kind, base, given2)
    fine = base
    for n in chain:
        fine = dom.refine(fine, n)
        f, f2 = RefinedInterpolation(f, fine), RefinedInterpolation(f2, fine)
    two = scn["two"]
    g = Deformation(f, f2) if two else f
    events = []
    thorough = scn["tier"] == "thorough"
    tris = list(fine.triangles)
    r.shuffle(tris)
    # interpolations on other refined grids, used in between
    others = []
    for nx, ny, n in ((scn["ny"], scn["nx"], chain[-1]), (scn["nx"], scn["ny"], chain[-1] % 3 + 1), (scn["ny"] + 1, scn["nx"], chain[-1])):
        b = RectangleDomain(nx * s, ny * s).grid(s) if not body else Body(**any_body(r, 4)).grid(s)
        fs = [build(kind, b, values(r, kind, len(b.points), "number", s)[1]) for _ in range(2)]
        n = min(n, 3)
        h = dom.refine(b, n)
        others.append(Deformation(*(RefinedInterpolation(q, h) for q in fs)))
    for t in tris[: 60 if thorough else 24 if kind == "p1" else 10]:
        t = tuple(t)
        k = r.randrange(3)
        # naming a triangle from another vertex makes no difference
        t = t if r.random() < 0.6 else t[k:] + t[:k]
        ls = bary(r, 3)
        for o in others:
            call(o[0], t, ls[0])
            call(o.strain, t, ls[1])
        e = {"ev": "fine", "tri": list(t), "samples": [sample(kind, g, t, l, deformation=two) for l in ls]}
        if two:
            e["two"] = 1
        events.append(e)
    lists = [list(fine.edges), list(fine.boundary.edges), list(fine.dirichlet_boundary.edges)]
    for es in lists:
        r.shuffle(es)
        for edge in es[: 30 if thorough else 12]:
            edge = tuple(edge)
            ss = []
            for x in (0.0, 1.0, r.random()):
                call(r.choice(others).on_edge, edge, x)
                ok, v = call(g.on_edge, edge, x)
                ss.append({"s": num(x), "outcome": "ok" if ok else "error", "value": (nested(v) if two else num(v)) if ok else "nan"})
            e = {"ev": "fineedge", "edge": list(edge), "samples": ss}
            if two:
                e["two"] = 1
            events.append(e)
    return {"kind": kind, **light(base), "fine": [nums(p) for p in fine.points], "data": nested_data(d), "data2": nested_data(d2), "events": events}


# ------------------------------------------------------------------ integration
def rules():
    import tvemoves_rufbad.quadrature_rules as q

    return [q.CENTROID, q.DUNAVANT2, q.DUNAVANT3, q.DUNAVANT4, q.DUNAVANT5, q.VERTEX]


def run_rule(scn, r):
    import tvemoves_rufbad.quadrature_rules as q

    d = scn["degree"]
    rs = [(1, q.VERTEX)] if d == 0 else [(d, q.DUNAVANT_QUADRATURE_RULES[d - 1]), (d, rules()[d - 1])]
    events = []
    for deg, rule in rs:
        events.append({"ev": "rule", "degree": deg, "weights": nums(rule.weights), "points": [nums(p) for p in rule.points],
                       "iter": [[num(w), nums(p)] for w, p in rule]})
    return {"events": events}


def run_edgerule(scn, r):
    from tvemoves_rufbad.quadrature_rules import GaussQuadratureRule

    rule = GaussQuadratureRule(scn["degree"])
    return {"events": [{"ev": "edgerule", "degree": scn["degree"], "weights": nums(rule.weights), "points": nums(rule.points),
                        "iter": [[num(w), num(p)] for w, p in rule]}]}


def poly(r, degree):
    res = []
    for _ in range(r.randint(1, 4)):
        d = r.randint(0, degree) if r.random() < 0.5 else degree
        i = r.randint(0, d)
        j = r.randint(0, d - i)
        res.append([i, j, d - i - j, grid_value(r, -4, 4)])
    return res


def poly_value(p, l):
    return sum(c * l[0] ** i * l[1] ** j * l[2] ** k for i, j, k, c in p)


def wrap(how, x, box):
    """Numbers, or expressions of a model."""
    if how == "number":
        return x
    import pyomo.environ as pyo

    if not box:
        m = pyo.ConcreteModel()
        m.v = pyo.Var(initialize=2.0)
        box.append(m)
    return box[0].v * (x / 2.0)


def wild(seed):
    """A function that is no polynomial."""
    return lambda cell, l: math.sin(seed + 3 * sum(cell) + 5 * (l if isinstance(l, float) else l[0] + 2 * l[1])) + cell[0]


def as_float(l):
    return float(l) if not hasattr(l, "l1") else l


def run_volume(scn, r):
    from tvemoves_rufbad.integrators import Integrator

    d = scn["degree"]
    deg, rule = (d, rules()[d - 1]) if d < 6 else (1, rules()[5])
    events = []
    pts, tris, _ = mesh(r, scn["thin"])
    points = [Vector(list(p)) for p in pts]
    elsewhere = [Vector([2.0 * p[1] + 1.0, 3.0 * p[0]]) for p in pts]
    for trial in range(6):
        cells = [tuple(t) for t in r.sample(tris, r.randint(0 if trial == 5 else 1, len(tris)))]
        cells = [c if r.random() < 0.5 else c[::-1] for c in cells]
        ps = {c: poly(r, deg) for c in cells}
        asked = []
        how = r.choice(["number", "var"])
        box = []

        def f(t, l):
            asked.append(tuple(t))
            return wrap(how, poly_value(ps[tuple(t)], l) if tuple(t) in ps else 0.0, box)

        Integrator(rule, cells, elsewhere)(lambda *_: 1.0)
        v = Integrator(rule, cells, points)(f)
        events.append({"ev": "volume", "degree": deg, "cells": [list(c) for c in cells], "poly": [[[i, j, k, num(c)] for i, j, k, c in ps[t]] for t in cells],
                       "value": num(v), "asked": [list(a) for a in sorted(set(asked))]})
    events.append(linear(r, lambda cells: Integrator(rule, cells, points), [tuple(t) for t in tris]))
    return {"points": [nums(p) for p in pts], "events": events}


def linear(r, integrator, cells):
    cells = list(cells)
    f, g = wild(r.random()), wild(r.random() + 9)
    a, b = grid_value(r, -3, 3), grid_value(r, -3, 3)
    r.shuffle(cells)
    k = r.randint(0, len(cells))
    whole = integrator(list(cells))
    return {
        "ev": "linear", "a": num(a), "b": num(b),
        "f": num(whole(lambda c, l: f(c, as_float(l)))), "g": num(whole(lambda c, l: g(c, as_float(l)))),
        "fabs": num(abs(whole(lambda c, l: 20.0))), "gabs": num(abs(whole(lambda c, l: 20.0))),
        "mixed": num(whole(lambda c, l: a * f(c, as_float(l)) + b * g(c, as_float(l)))),
        "first": num(integrator(cells[:k])(lambda c, l: f(c, as_float(l)))),
        "second": num(integrator(cells[k:])(lambda c, l: f(c, as_float(l)))),
    }


def run_line(scn, r):
    from tvemoves_rufbad.integrators import BoundaryIntegrator

    n = scn["degree"]
    pts, tris, _ = mesh(r, scn["thin"])
    points = [Vector(list(p)) for p in pts]
    elsewhere = [Vector([2.0 * p[1] + 1.0, 3.0 * p[0]]) for p in pts]
    all_edges = [tuple(e) for e in grid_of(r, pts, tris).edges]
    events = []
    for trial in range(6):
        cells = [e if r.random() < 0.5 else e[::-1] for e in r.sample(all_edges, r.randint(0 if trial == 5 else 1, len(all_edges)))]
        ps = {c: [grid_value(r, -4, 4) for _ in range(r.choice([1, n, 2 * n, 2 * n]))] for c in cells}
        asked = []
        how = r.choice(["number", "var"])
        box = []

        def f(e, t):
            asked.append(tuple(e))
            t = float(t)
            return wrap(how, sum(c * t**k for k, c in enumerate(ps.get(tuple(e), []))), box)

        BoundaryIntegrator(n, cells, elsewhere)(lambda *_: 1.0)
        BoundaryIntegrator(n % 5 + 1, cells, points)(lambda *_: 1.0)
        v = BoundaryIntegrator(n, cells, points)(f)
        events.append({"ev": "line", "degree": n, "cells": [list(c) for c in cells], "poly": [nums(ps[c]) for c in cells],
                       "value": num(v), "asked": [list(a) for a in sorted(set(asked))]})
    events.append(linear(r, lambda cells: BoundaryIntegrator(n, cells, points), all_edges))
    return {"points": [nums(p) for p in pts], "events": events}


def run_accept(scn, r):
    from tvemoves_rufbad.quadrature_rules import TriangleQuadratureRule

    events = []
    for _ in range(40):
        n = r.randint(1, 6)
        ws = [r.uniform(-0.2, 1) for _ in range(n)]
        ws = [w / sum(ws) for w in ws] if abs(sum(ws)) > 0.2 else [1 / n] * n
        ps = []
        for _ in range(n):
            a, b = sorted((r.randint(0, 16), r.randint(0, 16)))
            ps.append([a / 16, (b - a) / 16])
        what = r.randrange(8)
        e = 10 ** r.uniform(-5, 0) * r.choice([-1, 1])
        k = r.randrange(n)
        if what == 0:
            ws[k] += e
        elif what == 1:
            ps[k][0] = -abs(e)
        elif what == 2:
            ps[k][1] = -abs(e)
        elif what == 3:
            a = r.random()
            ps[k] = [a + abs(e), 1 - a]
        elif what == 4 and abs(sum(ws) * 1.5 - 1) > 1e-3:
            ws = [w * 1.5 for w in ws]
        elif what == 5:
            ws[k] += e
            ps[k][0] = -abs(e)
        ok, _ = call(TriangleQuadratureRule, list(ws), [tuple(p) for p in ps])
        events.append({"ev": "accept", "weights": nums(ws), "points": [nums(p) for p in ps], "outcome": "ok" if ok else "error"})
    return {"events": events}
