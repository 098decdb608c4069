"""C10 - C16: records grids, refinements, point transfer and location, comparisons and curves."""

import itertools
import json
import os
from copy import deepcopy
from bodies import Body, any_body
from common import call, grid_value, num, nums, rng
from tvemoves_rufbad.domain import (
    RectangleDomain,
    Grid,
    Boundary,
    BarycentricPoint,
)
from tvemoves_rufbad.tensors import Vector, BarycentricCoordinates

SIDES = ["lower", "right", "upper", "left"]


# ------------------------------------------------------------------ recording
def _ints(s):
    return [int(x) for x in s]


def rec_grid(g):
    part = lambda b: {"vertices": _ints(b.vertices), "edges": [_ints(e) for e in b.edges]}
    return {
        "vertices": _ints(g.vertices),
        "points": [nums(p) for p in g.points],
        "edges": [_ints(e) for e in g.edges],
        "triangles": [_ints(t) for t in g.triangles],
        "boundary": part(g.boundary),
        "dirichlet": part(g.dirichlet_boundary),
        "neumann": part(g.neumann_boundary),
    }


def failure(ev, what, extra=None):
    return {"ev": "failed", "in": ev, "what": str(what), **(extra or {})}


def fix_forms(r, subset):
    """A value for the parameter `fix` that selects the sides in subset."""
    subset = list(subset)
    r.shuffle(subset)
    if not subset:
        return r.choice([None, []])
    if len(subset) == 1 and r.random() < 0.5:
        return subset[0]
    if r.random() < 0.4:
        subset = subset + [r.choice(subset)]
        r.shuffle(subset)
    return subset


def fix_list(fix):
    return [] if fix is None else [fix] if isinstance(fix, str) else list(fix)


def subsets():
    return [c for k in range(5) for c in itertools.combinations(SIDES, k)]


def subs_of(r):
    return r.choice(subsets())


SCALES = [1, 0.5, 0.25, 0.1, 0.2, 0.3, 0.7, 1 / 3, 0.05, 2.3, 1.1, 3, 0.15, 0.01, 1e-3, 12.5, 3e-5, 1e-7, 2e4, 1e6 / 3, 1e-9, 1e-12, 3e7 / 7, 1e10 / 3]


def domain_cases(r, count, max_vertices, only_exact=False):
    """(width, height, scale, fix)"""
    fixed = [
        (1, 1, 1, None),
        (1.0, 1.0, 0.5, "lower"),
        (0.3, 0.3, 0.1, ["left"]),
        (2, 1, 0.5, ["lower", "right"]),
        (1, 2, 0.5, ["upper", "left", "upper"]),
        (0.7, 0.2, 0.1, ["lower", "upper"]),
        (3, 1, 1, ["left", "right"]),
        (1, 4, 1, ["right"]),
        (0.6, 0.1, 0.1, SIDES),
        (1.0, 1.0, 0.3, ["upper"]),
        (1.9, 1.0, 0.6, ["lower", "left"]),
        (4.35, 1.45, 1.45, ["left", "upper", "right"]),
        (0.29, 0.57, 0.01 * 10, None),
        (1.1 * 3, 2.2, 1.1, ["left", "lower"]),
        (2.3 * 4, 2.3 * 2, 2.3, ["right", "upper"]),
        (0.1 + 0.2, 0.1 * 3, 0.1, ["left", "lower", "right"]),
        (1.2, 0.6, 0.2, "upper"),
        (0.9, 0.6, 0.3, "right"),
        (5, 1, 1, ["lower"]),
        (1, 1, 0.2, "left"),
    ]
    cases = [c for c in fixed if not only_exact or c not in fixed[9:13]]
    subs = subsets()
    k = 0
    while len(cases) < count:
        scale = r.choice(SCALES)
        nx, ny = r.randint(1, 9), r.randint(1, 9)
        if r.random() < 0.15:
            nx = r.randint(10, 40)
        if r.random() < 0.1:
            ny = r.randint(10, 40)
        if (nx + 1) * (ny + 1) > max_vertices:
            continue
        fx, fy = (0, 0) if only_exact else (r.choice([0, 0, 0.25, 0.5, 0.9, 0.99]), r.choice([0, 0, 0.01, 0.5, 0.75]))
        width = scale * (nx + fx)
        height = scale * (ny + fy)
        if r.random() < 0.3:
            width = nx * scale if fx == 0 else width
            height = sum([scale] * ny) if fy == 0 else height
        cases.append((width, height, scale, fix_forms(r, subs[k % 16])))
        k += 1
    return cases[:count]


# ------------------------------------------------------------------ scenarios
def scenarios(prop, tier, seed, work):
    thorough = tier == "thorough"
    r = rng(prop, seed)
    scns = []
    if prop in ("C10", "C11"):
        cases = domain_cases(r, 1200 if thorough else 180, 1500 if thorough else 350)
        # long thin bodies and bodies of many vertices
        if prop == "C10":   # the scale does not fit into the rectangle
            for k in range(60 if thorough else 12):
                x = r.choice(SCALES)
                cases.append([(0.7 * x, r.randint(1, 5) * x, x, None), (r.randint(1, 5) * x, r.choice([0.3, 0.999, 0.01]) * x, x, fix_forms(r, subs_of(r))), (0.5 * x, 0.25 * x, x, None)][k % 3])
        for nx, ny in [(150, 1), (1, 150), (103, 2), (2, 101), (37, 29), (12, 11)]:
            x = r.choice(SCALES)
            cases.append((nx * x, ny * x, x, fix_forms(r, subs_of(r))))
        if prop == "C11":
            # every selection of sides on every small shape
            for nx, ny in [(1, 1), (2, 1), (1, 2), (1, 3), (3, 2), (2, 2), (4, 3)]:
                for s in subsets():
                    cases.append((nx * 0.5, ny * 0.5, 0.5, fix_forms(r, s)))
            for s in itertools.permutations(SIDES):
                cases.append((3, 2, 1, list(s)))
                cases.append((2, 3, 1, list(s[:3]) + [s[0]]))
        for k in range(0, len(cases), 8):
            scns.append({"id": f"grids-{k // 8}", "cases": cases[k : k + 8], "op": "grids", "ev": "grid" if prop == "C10" else "bounds"})
    elif prop == "C12":
        cases = [c for c in domain_cases(r, 400 if thorough else 90, 30)]
        for k, c in enumerate(cases):
            nv = (int(c[0] / c[2] + 1e-9) + 1) * (int(c[1] / c[2] + 1e-9) + 1)
            limit = 700 if thorough else 330
            ns = [n for n in range(1, 13 if thorough else 8) if nv * n * n <= limit] or [1]
            n = ns[k % len(ns)] if k % 3 else ns[-1]
            chain = [n]
            if nv * n * n <= limit / 4 and n > 1:
                m = r.choice([m for m in (2, 3, 4, 5) if nv * (n * m) ** 2 <= limit] or [2])
                chain.append(m)
            scns.append({"id": f"refine-{k}", "case": c, "chain": chain, "op": "refine", "cost": nv * n * n})
        for n, m in [(3, 5), (5, 3), (2, 2), (3, 3), (4, 2), (2, 7)]:
            scns.append({"id": f"refine-twice-{n}-{m}", "case": (2.3 * 1.01, 2.3 * 1.01, 2.3, ["left"]), "chain": [n, m], "op": "refine", "cost": 400})
        for s in (1e-9, 1e-12, 3e7 / 7, 1e10 / 3, 7e-6):
            for n in (3, 7):
                scns.append({"id": f"refine-size-{s:.0e}-{n}", "case": (2 * s, s, s, ["left", "lower"]), "chain": [n], "op": "refine", "cost": 400})
        # factors of two digits, single cells and rows of cells, more than a hundred vertices
        for n, (nx, ny), fix in [(10, (1, 1), ["left"]), (11, (1, 1), SIDES), (12, (1, 1), None), (13, (1, 1), ["lower", "right"]),
                                 (17, (1, 1), ["upper"]), (10, (2, 1), ["left", "upper"]), (11, (1, 2), ["right"]), (3, (12, 1), ["upper", "left"]),
                                 (2, (1, 25), ["right", "lower"]), (2, (11, 10), ["left"]), (4, (10, 4), ["left", "lower"])] + ([(23, (1, 1), ["left"]), (20, (2, 1), ["lower"]), (2, (60, 1), SIDES), (4, (10, 10), ["right"]), (5, (9, 7), None), (101, (1, 1), None)] if thorough else []):
            s = r.choice([1, 0.5, 0.3])
            scns.append({"id": f"refine-far-{n}-{nx}-{ny}", "case": (nx * s, ny * s, s, fix), "chain": [n], "op": "refine", "cost": nx * ny * n * n})
        scns.append({"id": "refine-thrice", "case": (1, 1, 1, ["lower", "left"]), "chain": [2, 3, 2], "op": "refine", "cost": 400})
        scns.append({"id": "refine-thrice-b", "case": (0.1, 0.1, 0.1, ["upper"]), "chain": [3, 2, 3], "op": "refine", "cost": 400})
    elif prop == "C13":
        cases = domain_cases(r, 120 if thorough else 40, 20)
        for k, c in enumerate(cases):
            nv = (int(c[0] / c[2] + 1e-9) + 1) * (int(c[1] / c[2] + 1e-9) + 1)
            n = [1, 2, 3, 4, 5, 6, 7][k % 7]
            while nv * n * n > 150:
                n -= 1
            chain = [n] if k % 4 else [max(1, min(2, n)), 3 if nv <= 9 else 2]
            scns.append({"id": f"transfer-{k}", "case": c, "chain": chain, "op": "transfer", "seed": seed, "cost": nv * n * n, "per": 60 if thorough else 25})
        for n, nx, ny in [(10, 1, 1), (11, 1, 1), (12, 1, 1), (13, 1, 1), (10, 2, 1), (11, 1, 2), (2, 11, 1), (3, 1, 12)]:
            scns.append({"id": f"transfer-far-{n}-{nx}-{ny}", "case": (nx * 0.5, ny * 0.5, 0.5, ["left"]), "chain": [n], "op": "transfer", "seed": seed, "cost": nx * ny * n * n, "per": 60 if thorough else 40})
    elif prop == "C14":
        cases = domain_cases(r, 160 if thorough else 48, 60)
        for k, c in enumerate(cases):
            scns.append({"id": f"locate-{k}", "case": c, "n": [None, None, 2, 3, None, 4][k % 6], "op": "locate", "seed": seed,
                         "per": 80 if thorough else 40, "kind": ["none", "P1", "C1", "deformation", "refined"][k % 5]})
        for k, (nx, ny, n) in enumerate([(60, 1, None), (1, 45, None), (1, 1, 11), (3, 2, 6), (13, 12, None)]):
            scns.append({"id": f"locate-far-{k}", "case": (nx * 0.3, ny * 0.3, 0.3, ["left"]), "n": n, "op": "locate", "seed": seed,
                         "per": 80 if thorough else 30, "kind": ["P1", "none"][k % 2]})
        for k in range(60 if thorough else 16):
            scns.append({"id": f"locate-body-{k}", "case": (1, 1, r.choice([1, 1, 0.5, 2.0 ** -20]), None), "body": any_body(r), "n": [None, 2, 3, None][k % 4], "op": "locate", "seed": seed,
                         "per": 80 if thorough else 40, "kind": ["none", "P1", "none", "C1", "deformation", "refined"][k % 6]})
    elif prop == "C15":
        cases = domain_cases(r, 120 if thorough else 40, 30)
        for k, c in enumerate(cases):
            scns.append({"id": f"equal-{k}", "case": c, "op": "equal", "seed": seed, "n": [None, 2, None, 3][k % 4]})
        seqs = [json.loads(l) for l in sorted(set(open(os.path.join(work, "MC_Append.cases"))))]
        m = 64
        for k in range(m):
            scns.append({"id": f"append-{k}", "seqs": seqs[k::m], "op": "append-all"})
        # one trace is one sequence of appends: split below
        scns = [s for s in scns if s["op"] != "append-all"] + [
            {"id": f"append-{k}", "seq": q, "op": "append", "start": k % 2} for k, q in enumerate(seqs)
        ]
        for k in range(400 if thorough else 60):
            q = [[r.randint(0, 5), r.randint(0, 5)] for _ in range(14)]
            scns.append({"id": f"append-long-{k}", "seq": [e for e in q if e[0] != e[1]], "op": "append", "start": k % 2})
    elif prop == "C16":
        cases = []
        for c in (json.loads(l) for l in sorted(set(open(os.path.join(work, "MC_Curves.cases"))))):
            f = r.choice([1, 2.5, 0.3, 0.1, 1 / 3])
            cases.append((c["w"] * f, c["h"] * f, c["m"], c["nh"], None if c["nv"] == -1 else c["nv"]))
        for _ in range(400 if thorough else 60):
            cases.append((r.choice([1, 2.5, 0.3, 0.1, 10]), r.choice([1, 0.2, 3, 1.7]), r.randint(2, 40), r.randint(0, 9), r.choice([None, r.randint(0, 9)])))
        cases += [(2, 1, 101, 1, 0), (1, 3, 257, 0, 1), (1, 1, 2, 60, 55), (0.7, 0.1, 3, 101, 0), (1e-6, 2e-6, 5, 2, 3), (1e9, 3e8, 11, 12, None), (1e-3, 40, 7, 11, 10)]
        for k in range(0, len(cases), 9):
            scns.append({"id": f"curves-{k // 9}", "cases": cases[k : k + 9], "op": "curves"})
    for s in scns:
        s["spec"] = "TraceMesh"
    return scns


def run(scn):
    return globals()["run_" + scn["op"]](scn)


def run_grids(scn):
    events = []
    for w, h, s, fix in scn["cases"]:
        given = fix[:] if isinstance(fix, list) else fix
        ok, g = call(lambda: RectangleDomain(w, h, given).grid(s))
        if not ok:
            events.append(failure("grid", g, {"width": num(w), "height": num(h), "scale": num(s)}))
            continue
        events.append({
            "ev": scn["ev"], "width": num(w), "height": num(h), "scale": num(s),
            "fix": fix_list(fix), "grid": rec_grid(g),
        })
    return {"events": events}


def _domain(c):
    w, h, s, fix = c
    return RectangleDomain(w, h, fix), s


def _extent(c):
    w, h, s, _ = c
    return int(w / s + 1e-9), int(h / s + 1e-9)


def run_refine(scn):
    events = []
    dom, s = _domain(scn["case"])
    nx, ny = _extent(scn["case"])
    g = dom.grid(s)
    for n in scn["chain"]:
        before = rec_grid(g)
        ok, fine = call(dom.refine, g, n)
        if not ok:
            events.append(failure("refine", fine, {"factor": n}))
            break
        events.append({
            "ev": "refined", "scale": num(s), "factor": n, "nx": nx, "ny": ny,
            "fix": fix_list(scn["case"][3]), "coarse": before, "after": rec_grid(g),
            "grid": rec_grid(fine), "knows_coarse": fine.coarse() is g or rec_grid(fine.coarse()) == before,
        })
        g = fine
        # the lattice constant as the grid realises it
        nx, ny, s = nx * n, ny * n, s / n
    return {"events": events}


def _light(g):
    """The parts of a grid needed to check transfer and location."""
    d = rec_grid(g)
    return {k: d[k] for k in ("points", "edges", "triangles")}


def bary_points(r, count):
    fixed = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1 / 3, 1 / 3, 1 / 3), (0.5, 0.5, 0), (0, 0.25, 0.75), (0.5, 0, 0.5)]
    pts = [fixed[r.randrange(len(fixed))] for _ in range(count // 2)]
    while len(pts) < count:
        a, b = grid_value(r, 0, 1), grid_value(r, 0, 1)
        if a + b <= 1:
            pts.append((a, b, 1 - a - b))
    return pts


def run_transfer(scn):
    r = rng(scn["id"], scn["seed"])
    dom, s = _domain(scn["case"])
    g = dom.grid(s)
    for n in scn["chain"]:
        coarse, g = g, dom.refine(g, n)
        s_coarse, s = s, s / n
    fine = g
    events = []
    tris = list(fine.triangles)
    asks = []
    sample = tris if len(tris) <= scn["per"] else r.sample(tris, scn["per"])
    for k, t in enumerate(sample):
        i1, i2, i3 = t
        for tri in [(i1, i2, i3), (i2, i3, i1), (i3, i1, i2)]:
            for l in bary_points(r, 2):
                asks.append((tri, l))
        if k < 6:
            asks.append(((i1, i3, i2), (0.5, 0.25, 0.25)))
    nv = len(fine.vertices)
    for _ in range(5):
        asks.append((tuple(r.randrange(nv) for _ in range(3)), (0.25, 0.25, 0.5)))
    if scn["chain"][-1] > 1:
        asks += [(t, (0.25, 0.25, 0.5)) for t in coarse.triangles[:3]]
    others = [dom.refine(coarse, scn["chain"][-1] + 1), _domain((scn["case"][1], scn["case"][0], *scn["case"][2:]))[0].grid(scn["case"][2])]
    others[1] = dom.refine(others[1], scn["chain"][-1])
    for tri, l in asks:
        bl = BarycentricCoordinates(l[0], l[1])
        call(r.choice(others).to_coarse_barycentric_point, BarycentricPoint(tri, bl))
        ok, res = call(fine.to_coarse_barycentric_point, BarycentricPoint(tri, bl))
        e = {"ev": "transfer", "tri": _ints(tri), "l": nums(bl), "outcome": "ok" if ok else "error"}
        if ok:
            ok, val = call(lambda: (_ints(res.triangle), nums(res.coordinates)))
            if ok:
                e["ctri"], e["cl"] = val
            else:
                e["outcome"] = "error"
        events.append(e)
    edges = [tuple(e) for e in fine.edges]
    on_coarse = [e for e in edges if call(fine.to_coarse_edge_point, e, 0.5)[0]]
    rest = [e for e in edges if e not in set(on_coarse)]
    todo = (r.sample(on_coarse, min(len(on_coarse), scn["per"])) + r.sample(rest, min(len(rest), scn["per"])))
    asks = [(e, t) for e in todo for t in (r.choice([0.0, 1.0, 0.5]), grid_value(r, 0, 1))]
    asks += [((e[1], e[0]), grid_value(r, 0, 1)) for e in todo[:10]]
    asks += [((r.randrange(nv), r.randrange(nv)), 0.25) for _ in range(8)]
    for edge, t in asks:
        call(r.choice(others).to_coarse_edge_point, edge, t)
        ok, res = call(fine.to_coarse_edge_point, edge, t)
        e = {"ev": "edgetransfer", "edge": _ints(edge), "s": num(t), "outcome": "ok" if ok else "error"}
        if ok:
            ok, val = call(lambda: (_ints(res[0]), num(res[1])))
            if ok:
                e["cedge"], e["cs"] = val
            else:
                e["outcome"] = "error"
        events.append(e)
    return {"events": events, "fine": _light(fine), "coarse": _light(coarse), "scale": num(s_coarse)}


def area_points(r, g, w, h, s, count, body=False):
    """Points inside, on edges, on vertices, on the boundary and outside of the area [0,w]x[0,h]."""
    pts = []
    tris = g.triangles
    for k in range(count):
        kind = k % 8
        if kind == 0:
            p = g.points[r.randrange(len(g.points))]
            pts.append((p[0], p[1]))
        elif kind in (1, 2):
            i, j = g.edges[r.randrange(len(g.edges))]
            t = r.choice([0.5, 0.25, r.random()])
            p = t * g.points[i] + (1 - t) * g.points[j]
            pts.append((p[0], p[1]))
        elif kind in (3, 4) and body:
            a, b = (g.points[v] for v in r.choice(g.boundary.edges))
            u = r.random()
            d = r.choice([1e-6, 1e-4, 0.01, 0.1, 0.3, 1]) * s * r.choice([1, -1]) if kind == 4 else 0.0
            p = u * a + (1 - u) * b
            pts.append((p[0] + d * (b[1] - a[1]) / s, p[1] - d * (b[0] - a[0]) / s))
        elif kind == 3:
            side = r.randrange(4)
            u = r.random()
            p = [(u * w, 0.0), (u * w, h), (0.0, u * h), (w, u * h)][side]
            if r.random() < 0.5:   # outside by a rounding error
                e = r.choice([1, 2]) * 2.0 ** -52 * (w if side in (2, 3) else h)
                p = [(p[0], -e), (p[0], h + e), (-e, p[1]), (w + e, p[1])][side]
            pts.append(p)
        elif kind == 4:
            d = r.choice([1e-6, 1e-4, 0.01, 0.3, 1, 5]) * s
            u = r.random()
            pts.append(r.choice([(u * w, -d), (u * w, h + d), (-d, u * h), (w + d, u * h), (-d, -d), (w + d, h + d), (-d, h + d), (w + d, -d)]))
        elif kind == 5:
            # on the line through a grid edge, but outside
            i, j = g.edges[r.randrange(len(g.edges))]
            d = g.points[j] - g.points[i]
            m = r.choice([-1, 1]) * (2 + (w + h) / s)
            p = g.points[i] + m * d
            pts.append((p[0], p[1]))
        else:
            t = tris[r.randrange(len(tris))]
            a, b = r.random(), r.random()
            if a + b > 1:
                a, b = 1 - a, 1 - b
            p = a * g.points[t[0]] + b * g.points[t[1]] + (1 - a - b) * g.points[t[2]]
            pts.append((p[0], p[1]))
    pts += [(0.0, 0.0), (w, h), (w, 0.0), (0.0, h)]
    return pts


def containing(g, p):
    """Triangles containing p up to rounding, with barycentric coordinates (checked by the spec)."""
    res = []
    for t in g.triangles:
        a, b, c = (g.points[v] for v in t)
        d = (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])
        l2 = ((p[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (p[1] - a[1])) / d
        l3 = ((b[0] - a[0]) * (p[1] - a[1]) - (p[0] - a[0]) * (b[1] - a[1])) / d
        l1 = 1 - l2 - l3
        if min(l1, l2, l3) > -5e-8:
            res.append((t, (l1, l2, l3)))
    return res


def flat(x):
    from common import nested

    x = nested(x)
    out = []

    def walk(y):
        if isinstance(y, list):
            for z in y:
                walk(z)
        else:
            out.append(y)

    walk(x)
    return out


def interpolations(kind, r, dom, g, s):
    """(name, function of the point, function of triangle and barycentric coordinates) triples, and
    the grid they live on."""
    from tvemoves_rufbad.interpolation import (
        P1Interpolation, C1Interpolation, EuclideanInterpolation, EuclideanDeformation, Deformation, RefinedInterpolation,
    )

    rnd = lambda: grid_value(r, -2, 2)
    if kind == "P1":
        f = P1Interpolation(g, [rnd() for _ in g.vertices])
        e = EuclideanInterpolation(f)
        return g, [(e, f), (e.gradient, f.gradient)]
    if kind == "C1":
        f = C1Interpolation(g, [[rnd() for _ in range(6)] for _ in g.vertices])
        e = EuclideanInterpolation(f)
        return g, [(e, f), (e.gradient, f.gradient), (e.hessian, f.hessian)]
    if kind == "deformation":
        f1 = C1Interpolation(g, [[rnd() for _ in range(6)] for _ in g.vertices])
        f2 = C1Interpolation(g, [[rnd() for _ in range(6)] for _ in g.vertices])
        f, e = Deformation(f1, f2), EuclideanDeformation(f1, f2)
        return g, [(e, f), (e.strain, f.strain), (e.hyper_strain, f.hyper_strain)]
    fine = dom.refine(g, 2)
    f = RefinedInterpolation(C1Interpolation(g, [[rnd() for _ in range(6)] for _ in g.vertices]), fine)
    e = EuclideanInterpolation(f)
    return fine, [(e, f), (e.gradient, f.gradient), (e.hessian, f.hessian)]


def run_locate(scn):
    r = rng(scn["id"], scn["seed"])
    dom, s = _domain(scn["case"])
    body = scn.get("body")
    if body:
        dom = Body(**body)
    g = dom.grid(s)
    events = []
    if scn["kind"] != "none":
        g, fs = interpolations(scn["kind"], r, dom, g, s)
    elif scn["n"]:
        g = dom.refine(g, scn["n"])
    w = max(p[0] for p in g.points)
    h = max(p[1] for p in g.points)
    if body:
        w = h = 2 * s
    per = scn["per"] if scn["kind"] == "none" else scn["per"] // 4
    # other grids, used in between
    others = [RectangleDomain(a * w, b * h).grid(q * s) for a, b, q in ((1.01, 0.51, 1), (3.01, 2.01, 2), (0.51, 3.01, 1))] + [dom.grid(s)]
    others += [RectangleDomain(s * (nx + 0.1), s * (ny + 0.1)).grid(s) for nx, ny in ((1, 3), (2, 1), (1, 1))]
    if body:
        others += [Body(**any_body(r)).grid(s) for _ in range(3)]
    others = [o for o in others if 0 < len(o.triangles) < 150]
    for p in area_points(r, g, w, h, s, per, bool(body)):
        for o in r.sample(others, min(2, len(others))):
            call(o.to_barycentric_point, Vector([p[0], p[1]]))
        if scn["kind"] == "none":
            ok, res = call(g.to_barycentric_point, Vector([p[0], p[1]]))
            e = {"ev": "locate", "p": nums(p), "outcome": "error" if not ok else "none" if res is None else "found"}
            if e["outcome"] == "found":
                ok, val = call(lambda: (_ints(res.triangle), nums(res.coordinates)))
                if ok:
                    e["tri"], e["l"] = val
                else:
                    e["outcome"] = "error"
            events.append(e)
            continue
        for fe, fb in fs:
            ok, res = call(fe, *p)
            e = {"ev": "eval", "p": nums(p), "outcome": "ok" if ok else "error"}
            if ok:
                e["values"] = flat(res)
                e["candidates"] = [
                    {"tri": _ints(t), "l": nums(l), "values": flat(fb(t, BarycentricCoordinates(l[0], l[1])))}
                    for t, l in containing(g, p)
                ]
            events.append(e)
    # vertices by their positions
    for v in r.sample(range(len(g.points)), min(len(g.points), 6)):
        x, y = g.points[v]
        d = s / max(2, 3 * (scn["n"] or 1))
        e = s * 10 ** r.uniform(-4.5, -1.5) / (scn["n"] or 1)   # close to a vertex, but not there
        a, b = r.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (0.7, 0.7), (0.7, -0.7), (-0.3, 0.9)])
        beside = g.edges[r.randrange(len(g.edges))]
        m = (g.points[beside[0]] + g.points[beside[1]]) / 2
        for p in ((x, y), (x * (1 + 2.0 ** -52), y * (1 - 2.0 ** -52)), (x + d, y), (x + d * r.random(), y - d * r.random()), (-x - d, y), (x + a * e, y + b * e), (m[0], m[1])):
            call(r.choice(others).point_to_vertex, Vector(list(p)))
            ok, res = call(g.point_to_vertex, Vector(list(p)))
            events.append({"ev": "lookup", "p": nums(p), "outcome": "error" if not ok else "none" if res is None else "found",
                           "v": int(res) if ok and res is not None else -1})
    area = {} if body else {"w": num(w), "h": num(h)}
    return {"events": events, "grid": _light(g), **area, "extent": num(max(abs(x) for p in g.points for x in (p[0], p[1]))), "scale": num(s)}


# ------------------------------------------------------------------ equality
def _copy(g):
    part = lambda b: Boundary(list(b.vertices), [tuple(e) for e in b.edges])
    return {
        "vertices": list(g.vertices), "edges": [tuple(e) for e in g.edges],
        "triangles": [tuple(t) for t in g.triangles], "boundary": part(g.boundary),
        "dirichlet_boundary": part(g.dirichlet_boundary), "neumann_boundary": part(g.neumann_boundary),
        "points": [Vector(list(p)) for p in g.points],
    }


def _make(d):
    return Grid(**d)


def _shuffled(r, d):
    """The same grid with vertices renumbered and everything reordered."""
    n = len(d["vertices"])
    perm = list(range(n))
    r.shuffle(perm)
    e = lambda x: (lambda y: y if r.random() < 0.5 else y[::-1])((perm[x[0]], perm[x[1]]))

    def t(x):
        y = tuple(perm[v] for v in x)
        k = r.randrange(3)
        return y[k:] + y[:k]

    def sh(xs):
        xs = list(xs)
        r.shuffle(xs)
        return xs

    part = lambda b: Boundary(sh(perm[v] for v in b.vertices), sh(e(x) for x in b.edges))
    points = [None] * n
    for v in range(n):
        points[perm[v]] = d["points"][v]
    return {
        "vertices": sh(perm[v] for v in d["vertices"]), "edges": sh(e(x) for x in d["edges"]),
        "triangles": sh(t(x) for x in d["triangles"]), "boundary": part(d["boundary"]),
        "dirichlet_boundary": part(d["dirichlet_boundary"]), "neumann_boundary": part(d["neumann_boundary"]),
        "points": points,
    }


def _mutations(r, d, s):
    """(name, grid data) pairs; whether a mutation changes the grid is decided by the spec."""
    n = len(d["vertices"])
    res = []

    def new():
        c = deepcopy(d)
        return c

    c = new(); k = r.randrange(len(c["triangles"])); t = c["triangles"][k]; c["triangles"][k] = (t[0], t[2], t[1]); res.append(("flip", c))
    c = new(); k = r.randrange(len(c["triangles"])); t = c["triangles"][k]; c["triangles"][k] = (t[1], t[2], t[0]); res.append(("rotate", c))
    c = new(); k = r.randrange(len(c["edges"])); e = c["edges"][k]; c["edges"][k] = (e[1], e[0]); res.append(("reverse edge", c))
    c = new(); c["edges"].pop(r.randrange(len(c["edges"]))); res.append(("drop edge", c))
    c = new(); c["triangles"].pop(r.randrange(len(c["triangles"]))); res.append(("drop triangle", c))
    c = new()
    have = {frozenset(e) for e in c["edges"]}
    other = [(i, j) for i in range(n) for j in range(i) if frozenset((i, j)) not in have]
    if other:
        c["edges"][r.randrange(len(c["edges"]))] = r.choice(other)
        res.append(("replace edge", c))
        c = new(); c["edges"].append(r.choice(other)); res.append(("add edge", c))
    # the other diagonal of one square
    c = new()
    diag = [e for e in c["edges"] if abs(c["points"][e[0]][0] - c["points"][e[1]][0]) > s / 9 and abs(c["points"][e[0]][1] - c["points"][e[1]][1]) > s / 9]
    if diag:
        e = r.choice(diag)
        ts = [t for t in c["triangles"] if e[0] in t and e[1] in t]
        if len(ts) == 2:
            o = [next(v for v in t if v not in e) for t in ts]
            c["edges"][c["edges"].index(e)] = (o[0], o[1])
            res.append(("other diagonal, edge only", deepcopy(c)))
            rot = lambda t: t[t.index(e[0]):] + t[:t.index(e[0])]
            a, b = rot(ts[0]), rot(ts[1])
            # a = (e0, x, y): build ccw triangles over the flipped diagonal
            def ccw(p, q, w):
                P = c["points"]
                ar = (P[q][0] - P[p][0]) * (P[w][1] - P[p][1]) - (P[w][0] - P[p][0]) * (P[q][1] - P[p][1])
                return (p, q, w) if ar > 0 else (p, w, q)
            c["triangles"][c["triangles"].index(ts[0])] = ccw(o[0], o[1], e[0])
            c["triangles"][c["triangles"].index(ts[1])] = ccw(o[0], o[1], e[1])
            res.append(("other diagonal", c))
    for a, b in [("dirichlet_boundary", "neumann_boundary"), ("neumann_boundary", "dirichlet_boundary")]:
        if d[a].edges:
            c = new(); e = c[a].edges.pop(r.randrange(len(c[a].edges))); c[b].edges.append(e); res.append((f"{a} edge moved", c))
            c = new(); c[a].edges.pop(); res.append((f"{a} edge dropped", c))
        if d[a].vertices:
            c = new(); c[a].vertices.pop(r.randrange(len(c[a].vertices))); res.append((f"{a} vertex dropped", c))
        miss = [v for v in d["vertices"] if v not in d[a].vertices]
        if miss:
            c = new(); c[a].vertices.append(r.choice(miss)); res.append((f"{a} vertex added", c))
            if d[a].vertices:
                c = new(); c[a].vertices[r.randrange(len(c[a].vertices))] = r.choice(miss); res.append((f"{a} vertex replaced", c))
    c = new(); c["boundary"].edges.pop(r.randrange(len(c["boundary"].edges))); res.append(("boundary edge dropped", c))
    c = new(); c["boundary"].vertices.pop(r.randrange(len(c["boundary"].vertices))); res.append(("boundary vertex dropped", c))
    inner = [e for e in d["edges"] if e not in d["boundary"].edges and e[::-1] not in d["boundary"].edges]
    if inner:
        c = new(); c["boundary"].edges[r.randrange(len(c["boundary"].edges))] = r.choice(inner); res.append(("boundary edge replaced", c))
    c = new(); v = r.randrange(n); c["points"][v] = c["points"][v] + Vector([s / 8, 0.0]); res.append(("point moved", c))
    c = new(); v = r.randrange(n); c["points"][v] = c["points"][v] + Vector([0.0, s / 8]); res.append(("point moved up", c))
    c = new(); v = r.randrange(n); c["points"][v] = c["points"][v] + Vector([1e-13 * s, -1e-13 * s]); res.append(("rounding", c))
    c = new(); i, j = r.sample(range(n), 2); c["points"][i], c["points"][j] = c["points"][j], c["points"][i]; res.append(("two points swapped", c))
    c = new(); c["vertices"].append(n); c["points"].append(Vector([s / 2, s / 4])); res.append(("isolated vertex", c))
    c = new(); i, j = r.sample(range(n), 2)
    sw = {i: j, j: i}
    c["edges"] = [tuple(sw.get(v, v) for v in e) for e in c["edges"]]
    res.append(("two vertices exchanged in the edges only", c))
    return res


def _cmp(a, b):
    ok, x = call(lambda: a == b)
    if not ok:
        return "error"
    return "equal" if x is True else "different" if x is False else "other"


def run_equal(scn):
    r = rng(scn["id"], scn["seed"])
    dom, s = _domain(scn["case"])
    g = dom.grid(s)
    unit = s / 8
    if scn["n"]:
        g = dom.refine(g, scn["n"])
        unit = s / (8 * scn["n"])
        s = s / scn["n"]
    base = _copy(g)
    pairs = [("shuffled", g, _make(_shuffled(r, base))), ("itself", g, g), ("shuffled again", _make(_shuffled(r, base)), _make(_shuffled(r, base)))]
    for name, d in _mutations(r, base, s):
        pairs.append((name, g, _make(deepcopy(d))))
        pairs.append((name + ", shuffled", g, _make(_shuffled(r, deepcopy(d)))))
    # a vertex moved by a little
    d = deepcopy(base)
    v, k = r.randrange(len(base["points"])), r.choice([1, 3, 16, 50])
    d["points"][v] = d["points"][v] + Vector(r.choice([[k * s / 16384, 0.0], [0.0, -k * s / 16384]]))
    pairs.append(("nudged", g, _make(deepcopy(d))))
    pairs.append(("nudged, shuffled", _make(_shuffled(r, deepcopy(d))), g))
    # other grids of the same kind
    for fix in [None, ["left"], ["left", "lower"], SIDES]:
        pairs.append((f"fix={fix}", g, RectangleDomain(scn["case"][0], scn["case"][1], fix).grid(scn["case"][2])))
    pairs.append(("wider", g, RectangleDomain(scn["case"][0] + scn["case"][2], scn["case"][1], scn["case"][3]).grid(scn["case"][2])))
    pairs.append(("transposed", g, RectangleDomain(scn["case"][1], scn["case"][0], scn["case"][3]).grid(scn["case"][2])))
    events = []
    for name, a, b in pairs:
        others = {_cmp(a, x) for x in (None, 3, "grid", [1], object())}
        events.append({
            "ev": "equal", "what": name, "left": rec_grid(a), "right": rec_grid(b),
            "lr": _cmp(a, b), "rl": _cmp(b, a), "ll": _cmp(a, a), "rr": _cmp(b, b),
            "other": "different" if others == {"different"} else "equal",
            "unit": num(s / 16384 if name.startswith("nudged") else unit),
        })
    return {"events": events, "unit": num(unit)}


def run_append(scn):
    pts = [Vector([0.0, 0.0]), Vector([1.0, 0.0]), Vector([1.0, 2.0]), Vector([0.0, 3.0]), Vector([4.0, 4.0]), Vector([-1.0, 0.5])]
    empty = lambda: Boundary([], [])
    start = [] if scn["start"] == 0 else []
    g = Grid(list(range(len(pts))), start, [], empty(), empty(), empty(), pts)
    events = []
    for e in scn["seq"]:
        ok, res = call(g.append_edge, tuple(e))
        events.append({"ev": "append", "edge": e, "outcome": "ok" if ok else "error", "edges": [_ints(x) for x in g.edges]})
    return {"events": events}


def run_curves(scn):
    events = []
    for w, h, m, nh, nv in scn["cases"]:
        d = RectangleDomain(w, h)
        if nv is None:
            ok, res = call(d.curves, m, nh)
        else:
            ok, res = call(d.curves, m, nh, nv)
        e = {"ev": "curves", "width": num(w), "height": num(h), "points": m, "horizontal": nh, "vertical": -1 if nv is None else nv, "outcome": "ok" if ok else "error"}
        if ok:
            ok, val = call(lambda: [[nums(p) for p in c] for c in res])
            e["outcome"] = "ok" if ok else "error"
            if ok:
                e["curves"] = val
        events.append(e)
    return {"events": events}
