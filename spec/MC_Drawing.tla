----------------------------- MODULE MC_Drawing -----------------------------
(* All ways to draw MaxOps things on new and existing canvases, printed for  *)
(* replay.                                                                  *)
EXTENDS Drawing, TLC, Json
CONSTANT MaxOps
VARIABLES canvases, ops
vars == <<canvases, ops>>
(* grids 1..3 and domains 4..5, with their sizes *)
Things == <<[w |-> 1, h |-> 1], [w |-> 2, h |-> 1], [w |-> 1, h |-> 3], [w |-> 2, h |-> 2], [w |-> 1, h |-> 3]>>
Grids == 3
Init == canvases = <<>> /\ ops = <<>>
Log(o) == /\ Len(ops) < MaxOps /\ ops' = Append(ops, o)
          /\ Len(ops') = MaxOps => PrintT("CASE " \o ToJson(ops'))
New == \E t \in 1..Len(Things) : /\ Log([op |-> "new", t |-> t, on |-> 0])
                                 /\ canvases' = Append(canvases, Drawn(Blank, t, Things[t].w, Things[t].h))
On == \E t \in 1..Len(Things), c \in 1..Len(canvases) :
        /\ Log([op |-> "on", t |-> t, on |-> c])
        /\ canvases' = [canvases EXCEPT ![c] = IF t <= Grids THEN Drawn(@, t, Things[t].w, Things[t].h) ELSE Placed(@, t)]
Count(o) == Cardinality({k \in 1..Len(ops) : ops[k].op = o})
(* at most one axis of the caller, and one turned axis *)
Given == /\ Count("given") = 0
         /\ Log([op |-> "given", t |-> 6, on |-> 0])
         /\ canvases' = Append(canvases, Own(6))
Turn == /\ Count("turn") = 0
        /\ \E c \in 1..Len(canvases) : /\ Log([op |-> "turn", t |-> 0, on |-> c])
                                       /\ canvases' = [canvases EXCEPT ![c] = Turned(@)]
Next == New \/ On \/ Given \/ Turn
Spec == Init /\ [][Next]_vars
Covers == \A c \in 1..Len(canvases) : \A t \in canvases[c].things \cap 1..Grids :
  /\ canvases[c].x[1] <= 0 /\ canvases[c].x[2] >= Things[t].w
  /\ canvases[c].y[1] <= 0 /\ canvases[c].y[2] >= Things[t].h
Widen == [][\A c \in 1..Len(canvases) : /\ canvases'[c].x[1] <= canvases[c].x[1] /\ canvases[c].x[2] <= canvases'[c].x[2]
                                         /\ canvases'[c].y[1] <= canvases[c].y[1] /\ canvases[c].y[2] <= canvases'[c].y[2]]_vars
NothingErased == [][\A c \in 1..Len(canvases) : canvases[c].things \subseteq canvases'[c].things]_vars
OnlyOne == [][Cardinality({c \in 1..Len(canvases) : canvases'[c] # canvases[c]}) <= 1]_vars
=============================================================================
