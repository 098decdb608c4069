------------------------------ MODULE MC_Mesh -------------------------------
(***************************************************************************)
(* Construction of a grid, design level: the boundary starts out free, and  *)
(* sides are fixed one after the other, possibly repeatedly, each fixing    *)
(* lowering the count of free sides of its vertices once.  The invariants   *)
(* show that the description in module Mesh is a proper triangulation       *)
(* (C10) and that fixed and free part partition the boundary (C11).         *)
(***************************************************************************)
EXTENDS Mesh, TLC

CONSTANT MaxSize
VARIABLES nx, ny, fixes, edgesFixed, edgesFree, tags

SideVertices(s) == Ends(SideEdges(s, nx, ny))
NumSides(p) == Cardinality({s \in Sides : p \in SideVertices(s)})
G == Grid(nx, ny, {fixes[i] : i \in 1..Len(fixes)})

Init == /\ nx \in 1..MaxSize /\ ny \in 1..MaxSize
        /\ fixes = <<>>
        /\ edgesFixed = {}
        /\ edgesFree = OuterEdges(nx, ny)
        /\ tags = [p \in Ends(OuterEdges(nx, ny)) |-> NumSides(p)]

Fix(s) == /\ Len(fixes) < 5
          /\ fixes' = Append(fixes, s)
          /\ edgesFixed' = edgesFixed \cup SideEdges(s, nx, ny)
          /\ edgesFree' = edgesFree \ SideEdges(s, nx, ny)
          /\ tags' = IF \E i \in 1..Len(fixes) : fixes[i] = s THEN tags
                     ELSE [p \in DOMAIN tags |-> tags[p] - IF p \in SideVertices(s) THEN 1 ELSE 0]
          /\ UNCHANGED <<nx, ny>>
Next == \E s \in Sides : Fix(s)
Spec == Init /\ [][Next]_<<nx, ny, fixes, edgesFixed, edgesFree, tags>>

(* C10: a proper triangulation (independent of the boundary conditions) *)
Triangulation ==
  fixes = <<>> =>
  /\ Cardinality(G.points) = (nx + 1) * (ny + 1)
  /\ G.edges = UNION {TriSides(t) : t \in G.triangles}
  /\ Cardinality(G.points) - Cardinality(G.edges) + Cardinality(G.triangles) = 1     \* Euler
  /\ \A t \in G.triangles : Area2(t) = 1                     \* counterclockwise, half a square
  /\ Cardinality(G.triangles) = 2 * nx * ny                  \* together the covered area
  /\ \A e \in G.edges :
       Cardinality({t \in G.triangles : e \in TriSides(t)}) = IF e \in G.boundary THEN 1 ELSE 2
(* every point of the area (tested at the points of a five times finer,     *)
(* shifted lattice) is interior to exactly one triangle                     *)
Inside(u, v, t) ==      \* (u, v) in sevenths of the lattice constant
  \A k \in 1..3 : LET a == t[k] b == t[(k % 3) + 1]
                  IN (PX(b) - PX(a)) * (v - 7 * PY(a)) > (u - 7 * PX(a)) * (PY(b) - PY(a))
Tiling == fixes = <<>> /\ nx <= 2 /\ ny <= 2 =>
  \A u \in 0..(7 * nx - 1), v \in 0..(7 * ny - 1) :
     (u % 7 # 0 /\ v % 7 # 0 /\ u % 7 # v % 7) =>
        Cardinality({t \in G.triangles : Inside(u, v, t)}) = 1

(* C11 *)
Partition ==
  /\ edgesFixed = G.fixed /\ edgesFree = G.free                 \* order and repetition are immaterial
  /\ edgesFixed \cup edgesFree = G.boundary
  /\ edgesFixed \cap edgesFree = {}
FixedVertices == {p \in DOMAIN tags : tags[p] < NumSides(p)}
FreeVertices == {p \in DOMAIN tags : tags[p] > 0}
VerticesAreEndpoints ==
  /\ DOMAIN tags = Ends(G.boundary)
  /\ FixedVertices = Ends(G.fixed)
  /\ FreeVertices = Ends(G.free)
CornersOnly ==
  FixedVertices \cap FreeVertices \subseteq {p \in DOMAIN tags : PX(p) \in {0, nx} /\ PY(p) \in {0, ny}}
BoundaryIsClosedCurve ==
  \A p \in DOMAIN tags : Cardinality({e \in G.boundary : p \in {e[1], e[2]}}) = 2
=============================================================================
