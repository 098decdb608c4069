---------------------------- MODULE TraceMeshes -----------------------------
(* Recorded programs that work with grids, against module Meshes (C27).      *)
(* After every operation e.all shows all objects and e.same which of them    *)
(* compare equal.                                                            *)
EXTENDS TraceMesh, Meshes

Doms(tr) == TLCEval([d \in 1..Len(tr.doms) |-> [w |-> tr.doms[d].w, h |-> tr.doms[d].h, fix |-> Range(tr.doms[d].fix)]])
After1(tr, objs, e) ==
  CASE e.op = "make" -> Append(objs, Meshed(e.a, e.b))
    [] e.op = "refine" -> Append(objs, Refined(objs[e.a], e.b))
    [] e.op = "edge" -> LET o == objs[e.a] IN
         [objs EXCEPT ![e.a] = WithEdge(o, Edge(Pt(NX(Doms(tr), o), 0), Pt(0, NY(Doms(tr), o))))]
    [] OTHER -> objs
IsWhatItShould(tr, o, g) ==
  LET unit == RDiv(tr.size, o.k)
      want == TLCEval(Value(Doms(tr), o))
  IN IF ~WellFormed(g) \/ ~AllPoints(g, unit) THEN FALSE
     ELSE LET pos == Positions(g, unit)
              part(b, es) == /\ EdgesOf(b.edges, pos) = es /\ IsList(b.edges, es)
                             /\ VerticesOf(b.vertices, pos) = Ends(es) /\ IsList(b.vertices, Ends(es))
          IN /\ VerticesOf(g.vertices, pos) = want.points /\ IsList(g.vertices, want.points)
             /\ TrianglesOf(g.triangles, pos) = want.triangles /\ IsList(g.triangles, want.triangles)
             /\ EdgesOf(g.edges, pos) = want.edges /\ IsList(g.edges, want.edges)
             /\ part(g.boundary, want.boundary) /\ part(g.dirichlet, want.fixed) /\ part(g.neumann, want.free)
ObjectConds(tr, objs, e) ==
  LET now == TLCEval(After1(tr, objs, e))
      n == Len(now)
      doms == Doms(tr)
  IN <<<<"every object is there", Len(e.all) = n>>,
       <<"the object made by " \o e.op,
         (Len(e.all) = n /\ n > Len(objs)) => IsWhatItShould(tr, now[n], e.all[n])>>,
       <<"objects after " \o e.op, Len(e.all) = n => \A i \in 1..n : IsWhatItShould(tr, now[i], e.all[i])>>,
       <<"which objects are equal", Len(e.same) = n /\ \A i, j \in 1..n : e.same[i][j] = Equal(doms, now[i], now[j])>>,
       <<"domains are left alone", e.domains = tr.domains>>>>

MeshesStart(tr) == <<>>
MeshesConds(tr, objs, e) ==
  IF e.ev = "act" THEN ObjectConds(tr, objs, e) ELSE <<<<"failed: " \o ToString(e), FALSE>>>>
MeshesAfter(tr, objs, e) == IF e.ev = "act" THEN After1(tr, objs, e) ELSE objs
=============================================================================
