---------------------------- MODULE MC_Equality -----------------------------
(***************************************************************************)
(* Equality of grids, design level (C15).  The code compares vertex by       *)
(* vertex through a renumbering, and list by list through membership and     *)
(* length; the specification compares the parts as sets in lattice           *)
(* coordinates.  For grids that list nothing twice both agree, which makes   *)
(* the former an equivalence.  Enumerated: all pairs of edge lists over      *)
(* three vertices (up to three edges), under every renumbering.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

V3 == 0..2
AllEdges == {<<p, q>> \in V3 \X V3 : p # q}
Lists == UNION {[1..n -> AllEdges] : n \in 0..3}
Und(s) == {{s[i][1], s[i][2]} : i \in 1..Len(s)}
Proper(s) == Len(s) = Cardinality(Und(s))
Perms == {f \in [V3 -> V3] : {f[v] : v \in V3} = V3}
Ren(s, f) == [i \in 1..Len(s) |-> <<f[s[i][1]], f[s[i][2]]>>]
(* the comparison of the code: equal length and membership *)
CodeEq(s, u, f) == /\ Len(s) = Len(u)
                   /\ \A i \in 1..Len(u) : {f[u[i][1]], f[u[i][2]]} \in Und(s)

VARIABLES a, b, f
Init == a \in {s \in Lists : Proper(s)} /\ b \in {s \in Lists : Proper(s)} /\ f \in Perms
Next == UNCHANGED <<a, b, f>>
Spec == Init /\ [][Next]_<<a, b, f>>
Inverse == CHOOSE g \in Perms : \A v \in V3 : g[f[v]] = v
AgreesWithSets == CodeEq(a, b, f) <=> Und(a) = Und(Ren(b, f))
Symmetric == CodeEq(a, b, f) <=> CodeEq(b, a, Inverse)
Reflexive == a = b /\ f = [v \in V3 |-> v] => CodeEq(a, b, f)
=============================================================================
