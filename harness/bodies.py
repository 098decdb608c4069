"""Bodies other than rectangles: lattice squares of any arrangement, mapped affinely, and fixed along
any edges of the boundary.  They go through the same interface as the rectangles of the code."""

import copy
import math
from tvemoves_rufbad.domain import Boundary, Domain, Grid, RefinedGrid, BarycentricPoint
from tvemoves_rufbad.tensors import BarycentricCoordinates, Vector


def boundary(edges):
    return Boundary(sorted({v for e in edges for v in e}), list(edges))


class Fine(RefinedGrid):
    """A refined grid that does not depend on how the code creates its own."""

    def __init__(self, parts, coarse, triangle, corners, edge, ends):  # pylint: disable=super-init-not-called
        Grid.__init__(self, *parts)
        self._of = coarse, triangle, corners, edge, ends

    def coarse(self):
        return self._of[0]

    def to_coarse_barycentric_point(self, fine_point):
        t, l = tuple(fine_point.triangle), fine_point.coordinates
        l = (l.l1, l.l2, l.l3)
        while t not in self._of[1]:
            t, l = t[1:] + t[:1], l[1:] + l[:1]
        qs = self._of[2][t]
        at = [sum(w * (q.l1, q.l2)[i] for w, q in zip(l, qs)) for i in range(2)]
        return BarycentricPoint(self._of[1][t], BarycentricCoordinates(*at))

    def to_coarse_edge_point(self, fine_edge, t):
        if fine_edge not in self._of[3]:
            raise ValueError("no edge of the coarse grid")
        a, b = self._of[4][fine_edge]
        return self._of[3][fine_edge], t * a + (1 - t) * b


def refine(grid, n):
    """Every triangle is split into n * n; coarse vertices keep their numbers."""
    number, points = {}, []
    triangle, corners, edge, ends, triangles, edges = {}, {}, {}, {}, [], []

    def vertex(weights):
        key = tuple(sorted((v, w) for v, w in weights if w))
        if key not in number:
            number[key] = len(points)
            points.append(Vector([sum(w * float(grid.points[v][i]) for v, w in key) / n for i in range(2)]))
        return number[key]

    for v in grid.vertices:
        vertex([(v, n)])
        points[v] = copy.deepcopy(grid.points[v])
    for a, b in grid.edges:
        line = [vertex([(a, n - k), (b, k)]) for k in range(n + 1)]
        for k in range(n):
            e = (line[k], line[k + 1])
            edges.append(e)
            edge[e] = (a, b)
            ends[e] = (1 - k / n, 1 - (k + 1) / n)
    seen = {frozenset(e) for e in edges}
    for t in grid.triangles:
        at = {(k, l): vertex([(t[0], n - k - l), (t[1], k), (t[2], l)]) for k in range(n + 1) for l in range(n + 1 - k)}
        small = [((k, l), (k + 1, l), (k, l + 1)) for k in range(n) for l in range(n - k)]
        small += [((k, l + 1), (k - 1, l + 1), (k, l)) for l in range(n - 1) for k in range(1, n - l)]
        for c in small:
            f = tuple(at[x] for x in c)
            triangles.append(f)
            triangle[f] = t
            corners[f] = tuple(BarycentricCoordinates(1 - k / n - l / n, k / n) for k, l in c)
            for e in ((f[0], f[1]), (f[1], f[2]), (f[2], f[0])):
                if frozenset(e) not in seen:
                    seen.add(frozenset(e))
                    edges.append(e)
    of = lambda b: boundary([e for e in edges if e in edge and edge[e] in set(b.edges)])
    parts = (list(range(len(points))), edges, triangles, of(grid.boundary), of(grid.dirichlet_boundary), of(grid.neumann_boundary), points)
    rest = (grid, triangle, corners, edge, ends)
    try:
        return RefinedGrid(*parts, *rest)
    except TypeError:      # made in another way
        return Fine(parts, *rest)


class Body(Domain):
    """cells: squares of the lattice; shape: the two vectors its sides are mapped to; offset: where
    its origin is, in units of the scale; fixed: numbers of the edges of the boundary (see outline) that are fixed."""

    def __init__(self, cells, shape, offset, fixed):
        self.cells = [tuple(c) for c in cells]
        self.shape = [list(v) for v in shape]
        self.offset = list(offset)
        self.fixed = list(fixed)

    def __str__(self):
        return f"{self.cells} {self.shape} {self.offset} {self.fixed}"

    def _map(self, i, j, scale):
        (a, b), (c, d) = self.shape
        return Vector([scale * (a * i + c * j + self.offset[0]), scale * (b * i + d * j + self.offset[1])])

    def _lattice(self):
        at = {}
        for i, j in self.cells:
            for p in ((i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)):
                at.setdefault(p, len(at))
        triangles = []
        for i, j in self.cells:
            triangles.append((at[i, j], at[i + 1, j], at[i + 1, j + 1]))
            triangles.append((at[i + 1, j + 1], at[i, j + 1], at[i, j]))
        count, edges = {}, []
        for t in triangles:
            for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
                e = (min(a, b), max(a, b))
                count[e] = count.get(e, 0) + 1
                if count[e] == 1:
                    edges.append(e)
        return list(at), triangles, edges, [e for e in edges if count[e] == 1]

    def grid(self, scale):
        where, triangles, edges, outer = self._lattice()
        fixed = [e for k, e in enumerate(outer) if k in self.fixed]
        free = [e for k, e in enumerate(outer) if k not in self.fixed]
        return Grid(list(range(len(where))), edges, triangles, boundary(outer), boundary(fixed), boundary(free),
                    [self._map(i, j, scale) for i, j in where])

    def sides(self, scale):
        """The fixed edges as pairs of points."""
        where, _, _, outer = self._lattice()
        at = lambda v: self._map(*where[v], scale)
        return [[at(a), at(b)] for k, (a, b) in enumerate(outer) if k in self.fixed]

    def refine(self, grid, refinement_factor):
        return refine(grid, refinement_factor)

    def curves(self, *_):
        return []

    def plot(self, ax):
        return ax


def thickness(shape):
    """How thin the triangles are: their smallest altitude, at most 1."""
    (a, b), (c, d) = shape
    sides = math.hypot(a, b), math.hypot(c, d), math.hypot(a + c, b + d)
    return min(1.0, (a * d - b * c) / max(sides))


CELLS = [[(0, 0)], [(0, 0)], [(0, 0), (1, 0)], [(0, 0), (0, 1)], [(0, 0), (1, 0), (0, 1)], [(0, 0), (1, 0), (1, 1)], [(0, 0), (1, 1)],
         [(0, 0), (1, 0), (2, 0)], [(0, 0), (1, 0), (2, 0), (0, 1), (2, 1)]]


def any_body(r, most=9):
    """The description of a random body with at most so many squares."""
    cells = r.choice([c for c in CELLS if len(c) <= most])
    # dyadic, orientation preserving, not too thin
    kind = r.randrange(5)
    if kind == 0:
        shape = [[1, 0], [0, 1]]
    elif kind == 1:      # a different aspect
        shape = [[r.choice([1, 0.5, 1.5]), 0], [0, r.choice([1, 2, 0.75])]]
    elif kind == 2:      # turned
        shape = r.choice([[[0, 1], [-1, 0]], [[-1, 0], [0, -1]], [[0.75, 0.75], [-0.75, 0.75]], [[1, 0.5], [-0.5, 1]]])
    else:
        while True:
            shape = [[r.randint(-12, 12) / 8 for _ in range(2)] for _ in range(2)]
            det = shape[0][0] * shape[1][1] - shape[0][1] * shape[1][0]
            if det > 0.3 and det > 0.35 * math.hypot(*shape[0]) * math.hypot(*shape[1]):
                break
    outer = Body(cells, shape, [0, 0], [])._lattice()[3]
    k = r.choice([0, 1, 1, 2, 3, len(outer) // 2, len(outer)])
    return {"cells": [list(c) for c in cells], "shape": shape, "offset": [r.randint(-16, 16) / 8 for _ in range(2)] if r.random() < 0.7 else [0, 0],
            "fixed": sorted(r.sample(range(len(outer)), min(k, len(outer))))}
