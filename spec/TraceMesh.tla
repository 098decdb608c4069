----------------------------- MODULE TraceMesh -----------------------------
(***************************************************************************)
(* Validates recorded grids against module Mesh (C10 - C15).                *)
(*                                                                         *)
(* A recorded grid has fields n (number of listed vertices), vertices,      *)
(* points, edges, triangles and the three parts boundary, dirichlet,        *)
(* neumann (each with vertices and edges).  It is translated to lattice     *)
(* coordinates by the positions of its vertices, so that its numbering and  *)
(* the order of its parts are immaterial.                                   *)
(***************************************************************************)
EXTENDS TraceRun, Mesh, Curves

(* ---------------------------- translation ------------------------------ *)
Nearest(x, unit) == RFloor(RAdd(RDiv(x, unit), Half))
OnLattice(x, unit, k) == RLe(RAbs(RSub(x, RMul(k, unit))), RMul(unit, RDiv(1, 100000000)))
LatticePoint(p, unit) == LET i == Nearest(p[1], unit) j == Nearest(p[2], unit)
                         IN IF i \in 0..K - 1 /\ j \in 0..K - 1 THEN Pt(i, j) ELSE -1
AllPoints(g, unit) ==
  \A v \in 1..Len(g.points) : /\ RIsNum(g.points[v][1]) /\ RIsNum(g.points[v][2])
                              /\ OnLattice(g.points[v][1], unit, Nearest(g.points[v][1], unit))
                              /\ OnLattice(g.points[v][2], unit, Nearest(g.points[v][2], unit))
Numbered(g) == /\ Len(g.vertices) = Len(g.points)
               /\ Range(g.vertices) = 0..(Len(g.points) - 1)
ValidCells(g) ==
  LET valid(s) == Range(s) \subseteq 0..(Len(g.points) - 1)
  IN /\ \A i \in 1..Len(g.edges) : valid(g.edges[i]) /\ Len(g.edges[i]) = 2
     /\ \A i \in 1..Len(g.triangles) : valid(g.triangles[i]) /\ Len(g.triangles[i]) = 3
     /\ \A part \in {"boundary", "dirichlet", "neumann"} :
          /\ valid(g[part].vertices)
          /\ \A i \in 1..Len(g[part].edges) : valid(g[part].edges[i])
WellFormed(g) == Numbered(g) /\ ValidCells(g)

(* lattice position of every vertex (vertices are numbered from 0) *)
Positions(g, unit) == TLCEval([v \in 0..(Len(g.points) - 1) |-> LatticePoint(g.points[v + 1], unit)])
EdgesOf(es, pos) == {Edge(pos[es[i][1]], pos[es[i][2]]) : i \in 1..Len(es)}
TrianglesOf(ts, pos) == {Tri(pos[ts[i][1]], pos[ts[i][2]], pos[ts[i][3]]) : i \in 1..Len(ts)}
VerticesOf(vs, pos) == {pos[vs[i]] : i \in 1..Len(vs)}

IsList(s, set) == Len(s) = Cardinality(set)     \* s lists the elements of set, each once

(* ------------------------- the conditions ------------------------------ *)
Triangulates(g, nx, ny, pos) ==      \* C10
  LET ps == VerticesOf(g.vertices, pos)
      es == EdgesOf(g.edges, pos)
      ts == TrianglesOf(g.triangles, pos)
  IN <<<<"one vertex per lattice point", ps = Points(nx, ny) /\ IsList(g.vertices, ps)>>,
       <<"triangles", ts = Triangles(nx, ny)>>,
       <<"every triangle once", IsList(g.triangles, ts)>>,
       <<"edges", es = Edges(nx, ny)>>,
       <<"every edge once", IsList(g.edges, es)>>>>

Part(name, part, want, pos) ==
  LET es == EdgesOf(part.edges, pos)
      vs == VerticesOf(part.vertices, pos)
  IN <<<<name \o " edges", es = want>>,
       <<name \o " edges listed once", IsList(part.edges, es)>>,
       <<name \o " vertices", vs = Ends(want)>>,
       <<name \o " vertices listed once", IsList(part.vertices, vs)>>>>
Bounded(g, nx, ny, fix, pos) ==      \* C11
  LET want == Grid(nx, ny, fix)
  IN Part("boundary", g.boundary, want.boundary, pos)
     \o Part("fixed", g.dirichlet, want.fixed, pos)
     \o Part("free", g.neumann, want.free, pos)

(* how many squares nominally fit: 0.3 / 0.1 is 3, whatever its rounding *)
Fitting(side, scale) == RFloor(RAdd(RDiv(side, scale), Tol))

GridConds(e, c10, c11) ==
  LET g == e.grid
      nx == Fitting(e.width, e.scale)
      ny == Fitting(e.height, e.scale)
  IN IF ~WellFormed(g) THEN <<<<"well formed and consecutively numbered", FALSE>>>>
     ELSE IF ~AllPoints(g, e.scale) THEN <<<<"vertices are lattice points", FALSE>>>>
     ELSE LET pos == Positions(g, e.scale)
          IN (IF c10 THEN Triangulates(g, nx, ny, pos) ELSE <<>>)
             \o (IF c11 THEN Bounded(g, nx, ny, Range(e.fix), pos) ELSE <<>>)

(* C12.  e.coarse is the grid refined by e.factor; it has squares of size   *)
(* e.scale; e.after is what it was after the refinement.                    *)
SameGrid(g, h) == g = h
RefinedConds(e) ==
  LET g == e.grid
      c == e.coarse
      unit == RDiv(e.scale, e.factor)
      nx == e.nx * e.factor
      ny == e.ny * e.factor
  IN IF ~WellFormed(g) \/ ~WellFormed(c) THEN <<<<"well formed and consecutively numbered", FALSE>>>>
     ELSE IF ~AllPoints(g, unit) THEN <<<<"vertices are lattice points", FALSE>>>>
     ELSE LET pos == Positions(g, unit)
              cpos == TLCEval([v \in 0..(Len(c.points) - 1) |-> LatticePoint(c.points[v + 1], unit)])
              \* directed coarse edges that contain a fine edge
              Carriers(p, q) == {k \in 1..Len(c.edges) :
                                  LET a == cpos[c.edges[k][1]] b == cpos[c.edges[k][2]]
                                  IN OnSegment(p, a, b) /\ OnSegment(q, a, b)}
          IN Triangulates(g, nx, ny, pos) \o Bounded(g, nx, ny, Range(e.fix), pos)
             \o <<<<"coarse vertices keep number and position",
                    \A v \in 0..(Len(c.points) - 1) : v \in DOMAIN pos /\ pos[v] = cpos[v]>>,
                  <<"fine edges on a coarse edge are directed like it",
                    \A i \in 1..Len(g.edges) :
                      LET p == pos[g.edges[i][1]] q == pos[g.edges[i][2]]
                      IN \A k \in Carriers(p, q) : Along(p, q, cpos[c.edges[k][1]], cpos[c.edges[k][2]])>>,
                  <<"the refined grid is not altered", SameGrid(c, e.after)>>,
                  <<"the refined grid knows the coarse one", e.knows_coarse>>>>

(* ------------------------- points and transfer ------------------------- *)
V(g, v) == g.points[v + 1]
(* the point of the triangle with the given barycentric coordinates *)
At(g, tri, l) == [k \in 1..2 |-> RAdd(RAdd(RMul(l[1], V(g, tri[1])[k]), RMul(l[2], V(g, tri[2])[k])),
                                      RMul(l[3], V(g, tri[3])[k]))]
OnEdgeAt(g, edge, s) == [k \in 1..2 |-> RAdd(RMul(s, V(g, edge[1])[k]), RMul(RSub(1, s), V(g, edge[2])[k]))]
SamePoint(p, q, unit) == \A k \in 1..2 : RLe(RAbs(RSub(p[k], q[k])), RMul(unit, RDiv(1, 10000000)))
Listed(g, tri) == \E i \in 1..Len(g.triangles) :
   LET s == g.triangles[i] IN tri \in {s, <<s[2], s[3], s[1]>>, <<s[3], s[1], s[2]>>}
SumsToOne(l) == CloseTo(RSum(l), 1, 1)
(* barycentric coordinates of the point p in the triangle *)
Cross(a, b, p) == RSub(RMul(RSub(b[1], a[1]), RSub(p[2], a[2])), RMul(RSub(p[1], a[1]), RSub(b[2], a[2])))
Contains(g, tri, p, slack) ==
  LET a == V(g, tri[1]) b == V(g, tri[2]) c == V(g, tri[3])
      area == RAbs(Cross(a, b, c))
      sgn == IF RLt(0, Cross(a, b, c)) THEN 1 ELSE -1
      ok(u, v) == RLe(RNeg(RMul(slack, area)), RMul(sgn, Cross(u, v, p)))
  IN ok(a, b) /\ ok(b, c) /\ ok(c, a)

(* C13: ask is [tri, l] on tr.fine; the answer is on tr.coarse *)
TransferConds(tr, e) ==
  IF ~Listed(tr.fine, e.tri)
  THEN <<<<"a triangle that is not in the refined grid is rejected", e.outcome = "error">>>>
  ELSE IF e.outcome = "error" THEN <<<<"a triangle of the refined grid is transferred", FALSE>>>>
  ELSE <<<<"the answer is a coarse triangle", Listed(tr.coarse, e.ctri)>>,
         <<"the coarse triangle contains the fine one",
           \A k \in 1..3 : Contains(tr.coarse, e.ctri, V(tr.fine, e.tri[k]), RDiv(1, 10000000))>>,
         <<"barycentric coordinates sum to one", SumsToOne(e.cl)>>,
         <<"same point", SamePoint(At(tr.fine, e.tri, e.l), At(tr.coarse, e.ctri, e.cl), tr.scale)>>>>

Straight(a, b, p, unit) == RLe(RAbs(Cross(a, b, p)), RMul(RMul(unit, unit), RDiv(1, 10000000)))
Between(a, b, p, unit) ==
  LET d == RAdd(RMul(RSub(b[1], a[1]), RSub(p[1], a[1])), RMul(RSub(b[2], a[2]), RSub(p[2], a[2])))
      len == RAdd(Sq(RSub(b[1], a[1])), Sq(RSub(b[2], a[2])))
      slack == RMul(RMul(unit, unit), RDiv(1, 10000000))
  IN RLe(RNeg(slack), d) /\ RLe(d, RAdd(len, slack))
LiesOn(tr, edge) ==       \* the coarse edges the fine edge lies on
  LET p == V(tr.fine, edge[1]) q == V(tr.fine, edge[2])
  IN {k \in 1..Len(tr.coarse.edges) :
        LET a == V(tr.coarse, tr.coarse.edges[k][1]) b == V(tr.coarse, tr.coarse.edges[k][2])
        IN /\ Straight(a, b, p, tr.scale) /\ Straight(a, b, q, tr.scale)
           /\ Between(a, b, p, tr.scale) /\ Between(a, b, q, tr.scale)}
IsEdgeOf(g, edge) == \E i \in 1..Len(g.edges) : g.edges[i] = edge
EdgeTransferConds(tr, e) ==
  LET listed == IsEdgeOf(tr.fine, e.edge)
      carriers == LiesOn(tr, e.edge)
      right == <<<<"the answer is the coarse edge it lies on",
                   \E k \in carriers : Range(tr.coarse.edges[k]) = Range(e.cedge)>>,
                 <<"same point on the edge",
                   SamePoint(OnEdgeAt(tr.fine, e.edge, e.s), OnEdgeAt(tr.coarse, e.cedge, e.cs), tr.scale)>>>>
  IN IF carriers = {}
     THEN <<<<"an edge without coarse counterpart is rejected", e.outcome = "error">>>>
     ELSE IF e.outcome = "error"
     THEN <<<<"a fine edge on a coarse edge is transferred", ~listed>>>>
     ELSE right

(* C14: e.p was looked up in tr.grid, a triangulation of the rectangle      *)
(* [0, tr.w] x [0, tr.h] or, if there is no tr.w, of some other body         *)
InArea(tr, p, margin) == IF ~Has(tr, "w") THEN \E k \in 1..Len(tr.grid.triangles) : Contains(tr.grid, tr.grid.triangles[k], p, RDiv(margin, tr.scale))
                         ELSE /\ RLe(RNeg(margin), p[1]) /\ RLe(p[1], RAdd(tr.w, margin))
                         /\ RLe(RNeg(margin), p[2]) /\ RLe(p[2], RAdd(tr.h, margin))
Rounding == R("1e-12")
(* a few units in the last place of the extent: such a point still is on the boundary *)
LastPlace(tr) == RMul(tr.extent, RPow(2, -50))
LocateConds(tr, e) ==
  IF e.outcome = "none"
  THEN <<<<"a point of the area is found", ~InArea(tr, e.p, LastPlace(tr))>>>>
  ELSE IF e.outcome = "error" THEN <<<<"locating a point never fails", FALSE>>>>
  ELSE <<<<"a point outside is reported as outside", InArea(tr, e.p, RMul(tr.scale, RDiv(1, 1000000)))>>,
         <<"the answer is a triangle of the grid", Listed(tr.grid, e.tri)>>,
         <<"the triangle contains the point", Contains(tr.grid, e.tri, e.p, RDiv(1, 1000000))>>,
         <<"barycentric coordinates sum to one", SumsToOne(e.l)>>,
         <<"barycentric coordinates are nonnegative", \A k \in 1..3 : RLe(RDiv(-1, 1000000), e.l[k])>>,
         <<"the coordinates reproduce the point", SamePoint(At(tr.grid, e.tri, e.l), e.p, tr.scale)>>>>
(* evaluating an interpolation at the point / in the triangle it lies in: the
   values were recorded for every triangle containing the point            *)
EvalConds(tr, e) ==
  IF e.outcome = "error"
  THEN <<<<"evaluation inside the area succeeds", ~InArea(tr, e.p, LastPlace(tr))>>>>
  ELSE <<<<"evaluation outside is an error", InArea(tr, e.p, RMul(tr.scale, RDiv(1, 1000000)))>>,
         <<"agrees with the evaluation in a triangle that contains the point",
           \E c \in Range(e.candidates) :
             /\ Contains(tr.grid, c.tri, e.p, RDiv(1, 1000000))
             /\ SamePoint(At(tr.grid, c.tri, c.l), e.p, tr.scale)
             /\ Len(c.values) = Len(e.values)
             /\ \A k \in 1..Len(c.values) : RLe(RAbs(RSub(c.values[k], e.values[k])),
                                                RMul(RDiv(1, 1000000), RAdd(1, RMaxAbs(c.values))))>>>>

(* vertices by their positions *)
Apart(p, q, d) == \A i \in 1..2 : RLe(RAbs(RSub(p[i], q[i])), d)
LookupConds(tr, e) ==
  IF e.outcome = "error" THEN <<<<"looking up a vertex never fails", FALSE>>>>
  ELSE IF e.outcome = "none"
  THEN <<<<"a vertex is found at its position", ~\E k \in 1..Len(tr.grid.points) : Apart(tr.grid.points[k], e.p, LastPlace(tr))>>>>
  ELSE <<<<"the vertex is at the position", e.v \in 0..Len(tr.grid.points) - 1 /\ Apart(V(tr.grid, e.v), e.p, RMul(tr.scale, RDiv(1, 100000)))>>>>

(* C15: equality of two recorded grids, both on the lattice with spacing    *)
(* e.unit, which is finer than the grids, so that vertices may be elsewhere  *)
(* by a small multiple of it.                                               *)
Cells(g, unit) == TLCEval([v \in 1..Len(g.points) |-> <<Nearest(g.points[v][1], unit), Nearest(g.points[v][2], unit)>>])
Numbers(cells, all) ==         \* vertices at one position have one number
  TLCEval([v \in 0..(Len(cells) - 1) |-> CHOOSE k \in 1..Len(all) : all[k] = cells[v + 1] /\ \A m \in 1..(k - 1) : all[m] # all[k]])
Shape(g, pos) ==
  LET part(b) == [edges |-> EdgesOf(b.edges, pos), vertices |-> VerticesOf(b.vertices, pos)]
  IN [points |-> VerticesOf(g.vertices, pos), edges |-> EdgesOf(g.edges, pos),
      triangles |-> TrianglesOf(g.triangles, pos), boundary |-> part(g.boundary),
      dirichlet |-> part(g.dirichlet), neumann |-> part(g.neumann)]
EqualConds(tr, e) ==
  LET left == Cells(e.left, e.unit)
      right == Cells(e.right, e.unit)
      same == TLCEval(Shape(e.left, Numbers(left, left \o right)) = Shape(e.right, Numbers(right, left \o right)))
  IN <<<<"recorded grids are well formed", WellFormed(e.left) /\ WellFormed(e.right)
            /\ AllPoints(e.left, e.unit) /\ AllPoints(e.right, e.unit)>>,
       <<"equal grids compare equal", same => e.lr = "equal">>,
       <<"different grids compare different", ~same => e.lr = "different">>,
       <<"symmetric", e.rl = e.lr>>,
       <<"reflexive", e.ll = "equal" /\ e.rr = "equal">>,
       <<"a grid differs from other objects", e.other = "different">>>>

(* edges appended one after the other; the state is the set of edges *)
AppendConds(s, e) ==
  LET u == {e.edge[1], e.edge[2]}
      now == {Range(e.edges[i]) : i \in 1..Len(e.edges)}
  IN <<<<"appending succeeds", e.outcome = "ok">>,
       <<"the edge is there", now = s \cup {u}>>,
       <<"no edge is kept twice", Len(e.edges) = Cardinality(now)>>>>

(* C16 *)
CurveConds(e) ==
  LET nh == Kinds(e.horizontal)
      nv == VerticalKinds(e.horizontal, e.vertical)
      m == e.points
      unit == RAdd(e.width, e.height)
      near(p, q) == \A d \in 1..2 : RLe(RAbs(RSub(p[d], q[d])), RMul(unit, Tol))
      complete == e.outcome = "ok" /\ Len(e.curves) = nh + nv /\ \A c \in 1..Len(e.curves) : Len(e.curves[c]) = m
  IN <<<<"curves are generated", e.outcome = "ok">>,
       <<"number of curves", e.outcome = "ok" => Len(e.curves) = nh + nv>>,
       <<"number of points", e.outcome = "ok" => \A c \in 1..Len(e.curves) : Len(e.curves[c]) = m>>,
       <<"positions of the points",
         complete => LET want == Family(e.width, e.height, nh, nv, m)
                     IN \A c \in 1..(nh + nv) : \A k \in 1..m : near(e.curves[c][k], want[c][k])>>>>

MyStart(tr) == {}
MyConds(tr, s, e) ==
  CASE e.ev = "grid" -> GridConds(e, TRUE, FALSE)
    [] e.ev = "bounds" -> GridConds(e, FALSE, TRUE)
    [] e.ev = "refined" -> RefinedConds(e)
    [] e.ev = "transfer" -> TransferConds(tr, e)
    [] e.ev = "edgetransfer" -> EdgeTransferConds(tr, e)
    [] e.ev = "locate" -> LocateConds(tr, e)
    [] e.ev = "eval" -> EvalConds(tr, e)
    [] e.ev = "lookup" -> LookupConds(tr, e)
    [] e.ev = "equal" -> EqualConds(tr, e)
    [] e.ev = "append" -> AppendConds(s, e)
    [] e.ev = "curves" -> CurveConds(e)
    [] OTHER -> <<<<"failed: " \o ToString(e), FALSE>>>>
MyAfter(tr, s, e) == IF e.ev = "append" THEN s \cup {{e.edge[1], e.edge[2]}} ELSE s
=============================================================================
