------------------------------- MODULE Meshes -------------------------------
(***************************************************************************)
(* A program that works with domains and their grids (C27).  Domain d has    *)
(* w times h unit squares and the fixed sides fix.  Objects are created by   *)
(* meshing a domain, k squares to the unit, and by refining an object; an    *)
(* edge can be added to an object.  What an object is depends on nothing     *)
(* else: neither on other objects nor on when it was created.               *)
(***************************************************************************)
EXTENDS Mesh

Meshed(dom, k) == [dom |-> dom, k |-> k, added |-> {}]
Refined(o, n) == [o EXCEPT !.k = @ * n]
WithEdge(o, e) == [o EXCEPT !.added = @ \cup {e}]
NX(doms, o) == doms[o.dom].w * o.k
NY(doms, o) == doms[o.dom].h * o.k
Value(doms, o) == LET g == Grid(NX(doms, o), NY(doms, o), doms[o.dom].fix)
                  IN [g EXCEPT !.edges = @ \cup o.added]
(* equal as grids: the same things at the same places *)
Equal(doms, a, b) == a.k = b.k /\ Value(doms, a) = Value(doms, b)
=============================================================================
