--------------------------- MODULE MC_Simulation ----------------------------
(***************************************************************************)
(* All schedules of at most MaxCalls calls of at most MaxSteps steps, with   *)
(* at most one fault per call, at every point of every step.  Deformations  *)
(* and temperatures are the numbers of the solves that produced them.       *)
(*                                                                         *)
(* `clean` is the history of a simulation that never fails but gets the     *)
(* same answers: the history must be the same at all times (C03).           *)
(* Every schedule is printed, for replay against the implementation.        *)
(***************************************************************************)
EXTENDS Simulation, TLC, Json, FiniteSets
CONSTANTS MaxCalls, MaxSteps
VARIABLES s, clean, solves, problems, plan
vars == <<s, clean, solves, problems, plan>>

(* where a step can fail, and how *)
Before == {"traction", "traction-late", "traction-interrupt"}                \* no mechanical solve yet
InMech == {"mech", "mech-garbage", "mech-interrupt"}
Between == {"external", "external-interrupt"}                               \* no thermal solve yet
InHeat == {"heat", "heat-garbage", "heat-interrupt"}

Init == s = Nothing /\ clean = <<>> /\ solves = 0 /\ problems = <<>> /\ plan = <<>>
Initial == [y |-> 0, theta |-> 0]
Construct == /\ s.phase = "none"
             /\ s' = Constructed(s, Initial) /\ clean' = <<Initial>>
             /\ UNCHANGED <<solves, problems, plan>>
Request == /\ s.phase = "idle" /\ Len(plan) < MaxCalls
           /\ \E n \in 0..MaxSteps : /\ s' = Requested(s, n)
                                     /\ plan' = Append(plan, [n |-> n, at |-> 0, fault |-> "none"])
           /\ UNCHANGED <<clean, solves, problems>>
SolveMech == /\ s.phase = "mech"
             /\ solves' = solves + 1 /\ s' = Moved(s, solves')
             /\ problems' = Append(problems, MechProblem(s))
             /\ UNCHANGED <<clean, plan>>
SolveHeat == /\ s.phase = "heat"
             /\ solves' = solves + 1 /\ s' = Heated(s, solves')
             /\ clean' = Append(clean, [y |-> s.y, theta |-> solves'])
             /\ problems' = Append(problems, HeatProblem(s))
             /\ UNCHANGED plan
Fault == /\ Busy(s) /\ plan # <<>>
         /\ \E f \in IF s.phase = "mech" THEN Before \cup InMech ELSE Between \cup InHeat :
              LET c == plan[Len(plan)]
              IN plan' = [plan EXCEPT ![Len(plan)] = [n |-> c.n, at |-> c.n - s.left + 1, fault |-> f]]
         /\ s' = Abandoned(s)
         /\ solves' = solves + 1          \* whatever a failing solver leaves behind
         /\ UNCHANGED <<clean, problems>>
Return == /\ s.phase \in {"done", "failed"}
          /\ s' = Returned(s)
          /\ Len(plan) = MaxCalls => PrintT("CASE " \o ToJson(plan))
          /\ UNCHANGED <<clean, solves, problems, plan>>
Next == Construct \/ Request \/ SolveMech \/ SolveHeat \/ Fault \/ Return
Spec == Init /\ [][Next]_vars

Prefix(a, b) == Len(a) <= Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
AppendOnly == [][Prefix(s.steps, s'.steps) /\ Len(s'.steps) <= Len(s.steps) + 1]_vars
NoTrace == s.steps = clean
OnlyStepsTakeTime == Len(s.steps) = 0 \/ \A k \in 1..Len(problems) : problems[k].frame < Len(s.steps)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
(* as many states as requested minus the abandoned ones *)
Counted == s.phase = "idle" =>
  Len(s.steps) = 2 + Sum([k \in 1..Len(plan) |-> IF plan[k].fault = "none" THEN plan[k].n ELSE plan[k].at - 1])
(* each state comes from two consecutive solves, and the first of them was  *)
(* posed with the state before                                              *)
Chain == \A k \in 2..Len(s.steps) :
  /\ s.steps[k].theta = s.steps[k].y + 1
  /\ \E i \in 1..Len(problems) :
       problems[i] = [y |-> s.steps[k - 1].y, theta |-> s.steps[k - 1].theta, frame |-> k - 2]
  /\ \E i \in 1..Len(problems) :
       problems[i] = [y |-> s.steps[k - 1].y, theta |-> s.steps[k - 1].theta, new |-> s.steps[k].y, frame |-> k - 2]
(* a retry poses the same problem again *)
Retry == \A i \in 1..Len(problems) : \A j \in 1..Len(problems) :
  (problems[i].frame = problems[j].frame) => problems[i].y = problems[j].y /\ problems[i].theta = problems[j].theta
=============================================================================
