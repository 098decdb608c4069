----------------------------- MODULE Simulation -----------------------------
(***************************************************************************)
(* The staggered scheme as a state machine (C01, C03).                      *)
(*                                                                         *)
(* Deformations and temperatures are opaque.  A state s records             *)
(*   phase   none    nothing exists yet                                    *)
(*           mech    a mechanical problem is posed, waiting for the solver  *)
(*           heat    a thermal problem is posed, waiting for the solver     *)
(*           done    the requested steps are computed                       *)
(*           failed  the step in progress was abandoned                     *)
(*           idle    waiting for requests                                   *)
(*   steps   the recorded history, a sequence of [y, theta]                 *)
(*   y       the new deformation of the step in progress                    *)
(*   left    the number of steps still to be computed                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

Nothing == [phase |-> "none", steps |-> <<>>, y |-> "-", left |-> 0]
Last(s) == s.steps[Len(s.steps)]
Busy(s) == s.phase \in {"mech", "heat"}

(* The initial state is recorded and the first step is requested at once. *)
Constructed(s, initial) == [s EXCEPT !.phase = "mech", !.steps = <<initial>>, !.left = 1]
Requested(s, n) == [s EXCEPT !.phase = IF n > 0 THEN "mech" ELSE "failed", !.left = IF n > 0 THEN n ELSE 0]
Moved(s, y) == [s EXCEPT !.phase = "heat", !.y = y]
Heated(s, theta) ==
  [s EXCEPT !.steps = Append(@, [y |-> s.y, theta |-> theta]),
            !.y = "-",
            !.left = @ - 1,
            !.phase = IF s.left = 1 THEN "done" ELSE "mech"]
Abandoned(s) == [s EXCEPT !.phase = "failed", !.y = "-", !.left = 0]
Returned(s) == [s EXCEPT !.phase = "idle"]

(* The problems posed: what they depend on, and the number of frames since  *)
(* the start at which the loads are taken.                                  *)
MechProblem(s) == [y |-> Last(s).y, theta |-> Last(s).theta, frame |-> Len(s.steps) - 1]
HeatProblem(s) == [y |-> Last(s).y, theta |-> Last(s).theta, new |-> s.y, frame |-> Len(s.steps) - 1]
=============================================================================
