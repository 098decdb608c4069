----------------------------- MODULE MC_Scheme ------------------------------
(***************************************************************************)
(* How the code carries out the staggered scheme: a mechanical and a thermal *)
(* problem that live as long as the simulation and are updated before each   *)
(* solve, a list of recorded states, a clock, and bounds for the plots that  *)
(* grow with the history.  A solve that fails leaves garbage in its problem; *)
(* a load function that fails leaves its problem half updated.               *)
(*                                                                         *)
(* Checked: this implements module Simulation (Refines), the problems that   *)
(* reach the solver are those that Simulation poses (Poses), with the last   *)
(* recorded state as the start of the search (Starts), and what the plots    *)
(* use covers exactly the recorded history (C01, C03, C05, C26).            *)
(*                                                                         *)
(* With Retry = "problems" a step takes the state to continue from out of    *)
(* the thermal problem, as the code did before it was repaired: Poses fails. *)
(***************************************************************************)
EXTENDS Simulation, TLC, FiniteSets
CONSTANTS MaxCalls, MaxSteps, Retry
VARIABLES mech, heat, steps, clock, bounds, pc, left, calls, solves
vars == <<mech, heat, steps, clock, bounds, pc, left, calls, solves>>

Initial == [y |-> "id", theta |-> "initial"]
Absent == [prevY |-> "-", prevTheta |-> "-", y |-> "-", theta |-> "-", time |-> -1]
Init == /\ mech = Absent /\ heat = Absent /\ steps = <<>> /\ clock = -1 /\ bounds = {}
        /\ pc = "none" /\ left = 0 /\ calls = 0 /\ solves = 0

(* ---------------------------- construction ----------------------------- *)
Create == /\ pc = "none"
          /\ mech' = [Absent EXCEPT !.prevY = Initial.y, !.prevTheta = Initial.theta, !.y = Initial.y, !.time = 0]
          /\ pc' = "create: solve mech" /\ left' = 1
          /\ UNCHANGED <<heat, steps, clock, bounds, calls, solves>>
CreateSolveMech == /\ pc = "create: solve mech"
                   /\ solves' = solves + 1 /\ mech' = [mech EXCEPT !.y = ToString(solves')]
                   /\ pc' = "create: record"
                   /\ UNCHANGED <<heat, steps, clock, bounds, left, calls>>
Record(y, theta) == /\ steps' = Append(steps, [y |-> y, theta |-> theta])
                    /\ bounds' = bounds \cup {<<y, theta>>}
                    /\ clock' = clock + 1
CreateRecord == /\ pc = "create: record"
                /\ Record(mech.prevY, mech.prevTheta)
                /\ heat' = [prevY |-> mech.prevY, prevTheta |-> mech.prevTheta, y |-> mech.y, theta |-> mech.prevTheta, time |-> 0]
                /\ pc' = "solve heat"
                /\ UNCHANGED <<mech, left, calls, solves>>
(* -------------------------------- steps -------------------------------- *)
Call == /\ pc = "idle" /\ calls < MaxCalls
        /\ \E n \in 1..MaxSteps : left' = n
        /\ calls' = calls + 1 /\ pc' = "update mech"
        /\ UNCHANGED <<mech, heat, steps, clock, bounds, solves>>
From == IF Retry = "history" THEN steps[Len(steps)] ELSE [y |-> heat.y, theta |-> heat.theta]
UpdateMech == /\ pc = "update mech"
              /\ mech' = [mech EXCEPT !.prevY = From.y, !.prevTheta = From.theta, !.y = From.y, !.time = clock]
              /\ pc' = "solve mech"
              /\ UNCHANGED <<heat, steps, clock, bounds, left, calls, solves>>
SolveMech == /\ pc = "solve mech"
             /\ solves' = solves + 1 /\ mech' = [mech EXCEPT !.y = ToString(solves')]
             /\ pc' = "update heat"
             /\ UNCHANGED <<heat, steps, clock, bounds, left, calls>>
UpdateHeat == /\ pc = "update heat"
              /\ heat' = [prevY |-> mech.prevY, prevTheta |-> mech.prevTheta, y |-> mech.y, theta |-> mech.prevTheta, time |-> clock]
              /\ pc' = "solve heat"
              /\ UNCHANGED <<mech, steps, clock, bounds, left, calls, solves>>
SolveHeat == /\ pc = "solve heat"
             /\ solves' = solves + 1 /\ heat' = [heat EXCEPT !.theta = ToString(solves')]
             /\ pc' = "record"
             /\ UNCHANGED <<mech, steps, clock, bounds, left, calls>>
RecordStep == /\ pc = "record"
              /\ Record(heat.y, heat.theta)
              /\ left' = left - 1
              /\ pc' = IF left = 1 THEN "done" ELSE "update mech"
              /\ UNCHANGED <<mech, heat, calls, solves>>
Return == /\ pc \in {"done", "failed"} /\ pc' = "idle"
          /\ UNCHANGED <<mech, heat, steps, clock, bounds, left, calls, solves>>
(* ------------------------------- failures ------------------------------ *)
Fail == /\ pc' = "failed" /\ left' = 0 /\ solves' = solves + 1 /\ UNCHANGED <<steps, clock, bounds, calls>>
FailTraction == /\ pc = "update mech" /\ Fail       \* the traction is the last to be updated
                /\ mech' = [mech EXCEPT !.prevY = From.y, !.prevTheta = From.theta, !.y = From.y]
                /\ UNCHANGED heat
FailMech == /\ pc = "solve mech" /\ Fail /\ UNCHANGED heat
            /\ mech' \in {mech, [mech EXCEPT !.y = ToString(solves')]}
FailExternal == /\ pc = "update heat" /\ Fail /\ UNCHANGED mech
                /\ heat' = [heat EXCEPT !.prevY = mech.prevY, !.prevTheta = mech.prevTheta, !.theta = mech.prevTheta, !.y = mech.y]
FailHeat == /\ pc = "solve heat" /\ calls > 0 /\ Fail /\ UNCHANGED mech
            /\ heat' \in {heat, [heat EXCEPT !.theta = ToString(solves')]}
Next == Create \/ CreateSolveMech \/ CreateRecord \/ Call \/ UpdateMech \/ SolveMech \/ UpdateHeat \/ SolveHeat
        \/ RecordStep \/ Return \/ FailTraction \/ FailMech \/ FailExternal \/ FailHeat
Spec == Init /\ [][Next]_vars

(* ------------------------------ refinement ----------------------------- *)
Abs ==
  [phase |-> CASE pc \in {"create: solve mech", "update mech", "solve mech"} -> "mech"
               [] pc \in {"create: record", "update heat", "solve heat", "record"} -> "heat"
               [] OTHER -> pc,
   \* the answer of a thermal solve counts as recorded at once
   steps |-> IF steps = <<>> /\ pc # "none" THEN <<Initial>> ELSE steps,
   y |-> IF pc \in {"create: record", "update heat"} THEN mech.y
         ELSE IF pc \in {"solve heat", "record"} THEN heat.y ELSE "-",
   left |-> left]
AbsStep(a, b) ==
  \/ a.phase = "none" /\ b = Constructed(a, Initial)
  \/ a.phase = "idle" /\ \E n \in 1..MaxSteps : b = Requested(a, n)
  \/ a.phase = "mech" /\ b = Moved(a, mech'.y)
  \/ a.phase = "heat" /\ b = Heated(a, heat'.theta)
  \/ Busy(a) /\ b = Abandoned(a)
  \/ a.phase \in {"done", "failed"} /\ b = Returned(a)
Refines == [][Abs' # Abs => AbsStep(Abs, Abs')]_vars
Poses == /\ pc \in {"solve mech", "create: solve mech"} => [y |-> mech.prevY, theta |-> mech.prevTheta, frame |-> mech.time] = MechProblem(Abs)
         /\ pc = "solve heat" => [y |-> heat.prevY, theta |-> heat.prevTheta, new |-> heat.y, frame |-> heat.time] = HeatProblem(Abs)
Starts == /\ pc \in {"solve mech", "create: solve mech"} => mech.y = Last(Abs).y
          /\ pc = "solve heat" => heat.theta = Last(Abs).theta
Covered == bounds = {<<steps[k].y, steps[k].theta>> : k \in 1..Len(steps)}
Clock == clock = Len(steps) - 1
=============================================================================
