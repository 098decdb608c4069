-------------------------------- MODULE Many --------------------------------
(***************************************************************************)
(* Several simulations in one program (C27).  Everything runs in one thread, *)
(* but a call may be made while another one is in progress: out of a load    *)
(* function or out of the solver.  It returns before the outer one goes on.  *)
(*   m      the state of each simulation (module Simulation)                *)
(*   calls  the simulations whose calls are in progress, the inner ones last *)
(***************************************************************************)
EXTENDS Simulation

World(n) == [m |-> [i \in 1..n |-> Nothing], calls |-> <<>>]
InProgress(w, i) == \E k \in 1..Len(w.calls) : w.calls[k] = i
Current(w) == IF w.calls = <<>> THEN 0 ELSE w.calls[Len(w.calls)]
(* a call can be made while nothing is going on or while a step of another   *)
(* simulation is being computed                                             *)
Reachable(w) == IF Current(w) = 0 THEN TRUE ELSE Busy(w.m[Current(w)])
MayConstruct(w, i) == Reachable(w) /\ w.m[i].phase = "none"
MayRequest(w, i) == Reachable(w) /\ w.m[i].phase = "idle"
Entered(w, i, s) == [m |-> [w.m EXCEPT ![i] = s], calls |-> Append(w.calls, i)]
Changed(w, s) == [w EXCEPT !.m[Current(w)] = s]
(* an abandoned construction leaves no simulation *)
Left(w) == LET i == Current(w)
               s == IF w.m[i].phase = "failed" /\ Len(w.m[i].steps) < 2 THEN Nothing ELSE Returned(w.m[i])
           IN [m |-> [w.m EXCEPT ![i] = s], calls |-> SubSeq(w.calls, 1, Len(w.calls) - 1)]
=============================================================================
