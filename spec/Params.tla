------------------------------ MODULE Params -------------------------------
(* Which simulation parameters are accepted, and what becomes of them.      *)
(* An optional parameter that is left out is the string "none".             *)
EXTENDS Num

Accepts(p) ==
  /\ 0 \preceq p.initial_temperature
  /\ 0 \prec p.search_radius
  /\ 0 \prec p.fps
  /\ 0 \prec p.scale
  /\ p.regularization # "none" =>
       /\ 0 \preceq p.regularization
       /\ p.refinement_factor # "none"
  /\ p.refinement_factor # "none" => 0 \prec p.refinement_factor

(* A refinement factor without regularisation is ignored *)
Outcome(p) == [p EXCEPT !.refinement_factor = IF p.regularization = "none" THEN "none" ELSE @]

SameOption(a, b) == IF a = "none" \/ b = "none" THEN a = b ELSE REq(a, b)
=============================================================================
