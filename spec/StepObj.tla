------------------------------ MODULE StepObj -------------------------------
(***************************************************************************)
(* A mechanical or thermal step as an object that holds data (C09).         *)
(*                                                                         *)
(* Fields of a state s: kind ("mech" or "heat"), prevY, y, prevTheta, theta *)
(* (the latter is not used by a mechanical step) and time, the time the     *)
(* loads are taken at.  The unknown is y, respectively theta.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

NewMech(identity, theta0) ==
  [kind |-> "mech", prevY |-> identity, y |-> identity, prevTheta |-> theta0, theta |-> theta0, time |-> 0]
NewHeat(prevY, y, prevTheta) ==
  [kind |-> "heat", prevY |-> prevY, y |-> y, prevTheta |-> prevTheta, theta |-> prevTheta, time |-> 0]

(* a new previous state resets the unknown that evolves from it *)
GivenPrevY(s, d) == IF s.kind = "mech" THEN [s EXCEPT !.prevY = d, !.y = d] ELSE [s EXCEPT !.prevY = d]
GivenPrevTheta(s, d) == IF s.kind = "heat" THEN [s EXCEPT !.prevTheta = d, !.theta = d] ELSE [s EXCEPT !.prevTheta = d]
GivenY(s, d) == [s EXCEPT !.y = d]
GivenTime(s, t) == [s EXCEPT !.time = t]
Rejected(s) == s
Solved(s, answer) == IF s.kind = "mech" THEN [s EXCEPT !.y = answer] ELSE [s EXCEPT !.theta = answer]
(* what a solve starts with, and what its search window is centred at *)
Unknown(s) == IF s.kind = "mech" THEN s.y ELSE s.theta
Centre(s) == IF s.kind = "mech" THEN s.prevY ELSE s.prevTheta
=============================================================================
