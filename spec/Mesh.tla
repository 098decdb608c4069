------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* The grid of a rectangle of nx by ny squares, in lattice coordinates:    *)
(* the lattice point (i, j) is the number Pt(i, j), so that positions in    *)
(* the plane are (i * unit, j * unit).  A grid is described independently   *)
(* of any numbering of its vertices; recorded grids are translated to this  *)
(* form by their positions (see TraceMesh).                                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

K == 10000
Pt(i, j) == i + K * j
PX(p) == p % K
PY(p) == p \div K

Edge(p, q) == IF p < q THEN <<p, q>> ELSE <<q, p>>          \* undirected
Ends(es) == {e[1] : e \in es} \cup {e[2] : e \in es}

(* A triangle is named by its vertices in cyclic order, the least one first *)
Tri(p, q, r) == IF p < q /\ p < r THEN <<p, q, r>>
                ELSE IF q < p /\ q < r THEN <<q, r, p>>
                ELSE <<r, p, q>>
TriSides(t) == {Edge(t[1], t[2]), Edge(t[2], t[3]), Edge(t[3], t[1])}
(* twice the signed area, in squares *)
Area2(t) == (PX(t[2]) - PX(t[1])) * (PY(t[3]) - PY(t[1]))
            - (PX(t[3]) - PX(t[1])) * (PY(t[2]) - PY(t[1]))

LowerTri(i, j) == Tri(Pt(i, j), Pt(i + 1, j), Pt(i + 1, j + 1))
UpperTri(i, j) == Tri(Pt(i, j), Pt(i + 1, j + 1), Pt(i, j + 1))

Points(nx, ny) == {Pt(i, j) : i \in 0..nx, j \in 0..ny}
Triangles(nx, ny) == {LowerTri(i, j) : i \in 0..nx - 1, j \in 0..ny - 1}
                     \cup {UpperTri(i, j) : i \in 0..nx - 1, j \in 0..ny - 1}
Edges(nx, ny) == {Edge(Pt(i, j), Pt(i + 1, j)) : i \in 0..nx - 1, j \in 0..ny}
                 \cup {Edge(Pt(i, j), Pt(i, j + 1)) : i \in 0..nx, j \in 0..ny - 1}
                 \cup {Edge(Pt(i, j), Pt(i + 1, j + 1)) : i \in 0..nx - 1, j \in 0..ny - 1}

Sides == {"lower", "right", "upper", "left"}
SideEdges(s, nx, ny) ==
  CASE s = "lower" -> {Edge(Pt(i, 0), Pt(i + 1, 0)) : i \in 0..nx - 1}
    [] s = "upper" -> {Edge(Pt(i, ny), Pt(i + 1, ny)) : i \in 0..nx - 1}
    [] s = "left"  -> {Edge(Pt(0, j), Pt(0, j + 1)) : j \in 0..ny - 1}
    [] s = "right" -> {Edge(Pt(nx, j), Pt(nx, j + 1)) : j \in 0..ny - 1}
OuterEdges(nx, ny) == UNION {SideEdges(s, nx, ny) : s \in Sides}
FixedEdges(fix, nx, ny) == UNION {SideEdges(s, nx, ny) : s \in fix}
FreeEdges(fix, nx, ny) == OuterEdges(nx, ny) \ FixedEdges(fix, nx, ny)

Grid(nx, ny, fix) ==
  [points |-> Points(nx, ny), edges |-> Edges(nx, ny), triangles |-> Triangles(nx, ny),
   boundary |-> OuterEdges(nx, ny), fixed |-> FixedEdges(fix, nx, ny), free |-> FreeEdges(fix, nx, ny)]

(* The lattice square, and the half of it, a refined triangle lies in *)
CoarseOf(t, n) ==
  LET cx == PX(t[1]) + PX(t[2]) + PX(t[3])        \* three times the centroid
      cy == PY(t[1]) + PY(t[2]) + PY(t[3])
      i == cx \div (3 * n)
      j == cy \div (3 * n)
  IN IF cx - 3 * n * i > cy - 3 * n * j THEN LowerTri(i, j) ELSE UpperTri(i, j)
(* Does the refined point p lie on the (refined) segment between a and b? *)
OnSegment(p, a, b) ==
  /\ (PX(b) - PX(a)) * (PY(p) - PY(a)) = (PX(p) - PX(a)) * (PY(b) - PY(a))
  /\ LET s == (PX(p) - PX(a)) * (PX(b) - PX(a)) + (PY(p) - PY(a)) * (PY(b) - PY(a))
     IN 0 <= s /\ s <= (PX(b) - PX(a)) * (PX(b) - PX(a)) + (PY(b) - PY(a)) * (PY(b) - PY(a))
Scaled(p, n) == Pt(n * PX(p), n * PY(p))
(* direction of the segment from p to q along the one from a to b *)
Along(p, q, a, b) == (PX(q) - PX(p)) * (PX(b) - PX(a)) + (PY(q) - PY(p)) * (PY(b) - PY(a)) > 0
=============================================================================
