----------------------------- MODULE MC_Meshes ------------------------------
(* All programs of MaxOps operations; every one is printed for replay.       *)
EXTENDS Meshes, TLC, Json
CONSTANTS MaxOps, MaxK
VARIABLES objs, ops
vars == <<objs, ops>>
Doms == <<[w |-> 1, h |-> 1, fix |-> {"lower"}], [w |-> 2, h |-> 1, fix |-> {"left", "right"}]>>
Init == objs = <<>> /\ ops = <<>>
Log(o) == /\ Len(ops) < MaxOps /\ ops' = Append(ops, o)
          /\ Len(ops') = MaxOps => PrintT("CASE " \o ToJson(ops'))
Make == \E d \in 1..Len(Doms), k \in 1..2 : Log([op |-> "make", a |-> d, b |-> k]) /\ objs' = Append(objs, Meshed(d, k))
Refine == \E i \in 1..Len(objs), n \in 1..3 :
            /\ objs[i].k * n <= MaxK /\ objs[i].added = {}
            /\ Log([op |-> "refine", a |-> i, b |-> n]) /\ objs' = Append(objs, Refined(objs[i], n))
(* from the lower right to the upper left corner *)
Corners(o) == Edge(Pt(NX(Doms, o), 0), Pt(0, NY(Doms, o)))
AddEdge == \E i \in 1..Len(objs) : /\ Log([op |-> "edge", a |-> i, b |-> 0])
                                   /\ objs' = [objs EXCEPT ![i] = WithEdge(@, Corners(@))]
Use == \E i \in 1..Len(objs) : Log([op |-> "use", a |-> i, b |-> 0]) /\ UNCHANGED objs
Next == Make \/ Refine \/ AddEdge \/ Use
Spec == Init /\ [][Next]_vars

(* equality is an equivalence, and a refined object equals one meshed finer *)
Equivalence == \A i, j \in 1..Len(objs) :
  /\ Equal(Doms, objs[i], objs[i])
  /\ Equal(Doms, objs[i], objs[j]) <=> Equal(Doms, objs[j], objs[i])
  /\ (objs[i].k = objs[j].k /\ objs[i].dom = objs[j].dom /\ objs[i].added = objs[j].added) <=> Equal(Doms, objs[i], objs[j])
(* only adding an edge changes an object, and only that one *)
Local == [][\A i \in 1..Len(objs) : objs'[i] # objs[i] => ops'[Len(ops')].op = "edge" /\ ops'[Len(ops')].a = i]_vars
=============================================================================
