----------------------------- MODULE MC_Refine ------------------------------
(***************************************************************************)
(* Refinement, design level: the coarse triangles are refined one after the *)
(* other, in any order.  Refining one adds the fine vertices in it that are *)
(* not there yet (numbered consecutively), its fine triangles, and its fine *)
(* edges unless already there, directed like the parallel coarse edge.      *)
(* Whatever the order, the result is the grid meshed n times finer (C12),   *)
(* every fine triangle and edge has the coarse counterpart of C13, and the  *)
(* number of a vertex never changes.                                        *)
(***************************************************************************)
EXTENDS Mesh, TLC

CONSTANTS Sizes, Factors
VARIABLES nx, ny, n, fix, done, number, tris, edges, fixedE, freeE

Coarse == Grid(nx, ny, fix)
Fine == Grid(n * nx, n * ny, fix)

(* the coarse numbering of the code: row by row *)
CoarseNumber(p) == PY(p) * (nx + 1) + PX(p)

LatticeIn(t) ==                      \* fine lattice points of the coarse triangle t
  LET a == Scaled(t[1], n)
  IN {p \in Fine.points :
       \A k \in 1..3 : LET b == Scaled(t[k], n) c == Scaled(t[(k % 3) + 1], n)
         IN (PX(c) - PX(b)) * (PY(p) - PY(b)) >= (PX(p) - PX(b)) * (PY(c) - PY(b))}
FineTris(t) == {s \in Fine.triangles : CoarseOf(s, n) = t}

Init == /\ \E s \in Sizes : nx = s[1] /\ ny = s[2]
        /\ n \in Factors
        /\ fix \in {{}, {"lower"}, {"upper", "left"}, Sides}
        /\ done = {} /\ tris = {} /\ edges = {} /\ fixedE = {} /\ freeE = {}
        /\ number = [p \in {Scaled(q, n) : q \in Points(nx, ny)} |->
                       CoarseNumber(Pt(PX(p) \div n, PY(p) \div n))]

NewNumbering(t) ==
  LET new == LatticeIn(t) \ DOMAIN number
      rank(p) == Cardinality({q \in new : q < p})
  IN [p \in DOMAIN number \cup new |->
        IF p \in DOMAIN number THEN number[p] ELSE Cardinality(DOMAIN number) + rank(p)]
OnCoarse(e, es) == \E c \in es : /\ OnSegment(e[1], Scaled(c[1], n), Scaled(c[2], n))
                                 /\ OnSegment(e[2], Scaled(c[1], n), Scaled(c[2], n))
Refine(t) ==
  /\ t \notin done
  /\ done' = done \cup {t}
  /\ number' = NewNumbering(t)
  /\ tris' = tris \cup FineTris(t)
  /\ LET new == UNION {TriSides(s) : s \in FineTris(t)}
     IN /\ edges' = edges \cup new
        /\ fixedE' = fixedE \cup {e \in new : OnCoarse(e, Coarse.fixed)}
        /\ freeE' = freeE \cup {e \in new : OnCoarse(e, Coarse.free)}
  /\ UNCHANGED <<nx, ny, n, fix>>
Next == \E t \in Coarse.triangles : Refine(t)
vars == <<nx, ny, n, fix, done, number, tris, edges, fixedE, freeE>>
Spec == Init /\ [][Next]_vars

SmallSizes == {<<1, 1>>, <<2, 1>>}
MoreSizes == {<<1, 1>>, <<2, 1>>, <<1, 2>>}
NumberedOnce ==
  /\ {number[p] : p \in DOMAIN number} = 0..(Cardinality(DOMAIN number) - 1)
  /\ \A q \in Coarse.points : number[Scaled(q, n)] = CoarseNumber(q)
PartsAreFine == tris \subseteq Fine.triangles /\ edges \subseteq Fine.edges
SameAsMeshingFiner ==
  done = Coarse.triangles =>
     /\ DOMAIN number = Fine.points
     /\ tris = Fine.triangles
     /\ edges = Fine.edges
     /\ fixedE = Fine.fixed
     /\ freeE = Fine.free
(* C13: counterparts *)
ContainedInCoarse ==
  \A s \in tris : LET t == CoarseOf(s, n) IN t \in done /\ \A k \in 1..3 : s[k] \in LatticeIn(t)
EdgeOnAtMostOneCoarseEdge ==
  \A e \in edges : Cardinality({c \in Coarse.edges :
     OnSegment(e[1], Scaled(c[1], n), Scaled(c[2], n)) /\ OnSegment(e[2], Scaled(c[1], n), Scaled(c[2], n))}) <= 1
NeverRenumbered == [][\A p \in DOMAIN number : number'[p] = number[p]]_vars
=============================================================================
