----------------------------- MODULE MC_Params -----------------------------
(* Enumerates parameter combinations around every boundary of the predicate *)
(* Accepts; every combination is printed and replayed into the code.        *)
(* The invariants are the consequences of Accepts a simulation relies on.   *)
EXTENDS Params, Json, FiniteSets

VARIABLE p

Temps == {"-1", "-1e-12", "-1e-300", "0", "1e-300", "0.25", "7", "1e300"}
Radii == {"-0.5", "-1e-300", "0", "1e-300", "1e-12", "0.3", "11", "1e300"}
Fps   == {"-3", "-0.5", "-1e-300", "0", "1e-300", "0.5", "3", "1e300"}
Scales == {"-0.5", "-1e-300", "0", "1e-300", "1e-12", "0.25", "2", "1e300"}
Regs == {"none", "-1", "-1e-12", "-1e-300", "0", "1e-300", "0.125", "3", "1e300"}
Refs == {"none", "-2", "0", "1", "5", "1000000"}

(* All combinations of two arbitrary parameters with the others valid, and  *)
(* all combinations of the two optional parameters with each other one.     *)
Base == [initial_temperature |-> "0.25", search_radius |-> "11", fps |-> "3", scale |-> "0.25",
         regularization |-> "0.125", refinement_factor |-> "5"]
Values == [initial_temperature |-> Temps, search_radius |-> Radii, fps |-> Fps, scale |-> Scales,
           regularization |-> Regs, refinement_factor |-> Refs]
Fields == DOMAIN Base

Init == p = Base
Change(f) == \E v \in Values[f] : p' = [p EXCEPT ![f] = v]
Next == \E f \in Fields : Change(f)
Distance(q) == Cardinality({f \in Fields : q[f] # Base[f]})
Bound == Distance(p) <= 3
Export == PrintT("CASE " \o ToJson(p))

(* Consequences *)
TimeStepWellDefined == Accepts(p) => 0 \prec RDiv(1, p.fps)
SearchWindowNotEmpty == Accepts(p) => 0 \prec p.search_radius
StartIsAdmissible == Accepts(p) => 0 \preceq p.initial_temperature
RegularisedHasRefinement ==
  Accepts(p) => LET o == Outcome(p) IN (o.regularization = "none") <=> (o.refinement_factor = "none")
OutcomeAccepted == Accepts(p) => Accepts(Outcome(p)) /\ Outcome(Outcome(p)) = Outcome(p)
=============================================================================
