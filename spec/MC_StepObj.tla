----------------------------- MODULE MC_StepObj -----------------------------
(***************************************************************************)
(* All sequences of at most MaxOps operations on a step.  Data are numbered *)
(* in the order in which they are given.  The ghost variable log has all    *)
(* operations: every field must be the last value that went into it.        *)
(***************************************************************************)
EXTENDS StepObj, TLC, Json
CONSTANT MaxOps
VARIABLES s, log
vars == <<s, log>>

Good == {"prev_y", "prev_theta", "time", "solve"} \cup {"y"}
Bad == {"bad_prev_y", "bad_prev_theta", "bad_y"}
Allowed(o) == s.kind = "heat" \/ o \notin {"y", "bad_y"}
Init == log = <<>> /\ s \in {NewMech(-1, -2), NewHeat(-1, -3, -2)}
Do(o, n) == CASE o = "prev_y" -> GivenPrevY(s, n)
              [] o = "prev_theta" -> GivenPrevTheta(s, n)
              [] o = "y" -> GivenY(s, n)
              [] o = "time" -> GivenTime(s, n)
              [] o = "solve" -> Solved(s, n)
              [] OTHER -> Rejected(s)
Next == /\ Len(log) < MaxOps
        /\ \E o \in Good \cup Bad :
             /\ Allowed(o)
             /\ log' = Append(log, o)
             /\ s' = Do(o, Len(log) + 1)
             /\ Len(log') = MaxOps => PrintT("CASE " \o ToJson([kind |-> s.kind, ops |-> log']))
Spec == Init /\ [][Next]_vars

Max(S) == CHOOSE m \in S : \A x \in S : x <= m
LastOf(ops, default) == LET S == {k \in 1..Len(log) : log[k] \in ops} IN IF S = {} THEN default ELSE Max(S)
Holds ==
  /\ s.prevY = LastOf({"prev_y"}, -1)
  /\ s.prevTheta = LastOf({"prev_theta"}, -2)
  /\ s.kind = "mech" => s.y = LastOf({"prev_y", "solve"}, -1)
  /\ s.kind = "heat" => s.y = LastOf({"y"}, -3) /\ s.theta = LastOf({"prev_theta", "solve"}, -2)
  /\ s.time = (IF LastOf({"time"}, 0) = 0 THEN 0 ELSE LastOf({"time"}, 0))
(* an operation changes nothing but what it is about *)
Changed(t, u) == {f \in DOMAIN t : t[f] # u[f]}
Local == [][Changed(s, s') \subseteq
             CASE log'[Len(log')] = "prev_y" -> IF s.kind = "mech" THEN {"prevY", "y"} ELSE {"prevY"}
               [] log'[Len(log')] = "prev_theta" -> IF s.kind = "heat" THEN {"prevTheta", "theta"} ELSE {"prevTheta"}
               [] log'[Len(log')] = "y" -> {"y"}
               [] log'[Len(log')] = "time" -> {"time"}
               [] log'[Len(log')] = "solve" -> IF s.kind = "mech" THEN {"y"} ELSE {"theta"}
               [] OTHER -> {}]_vars
=============================================================================
