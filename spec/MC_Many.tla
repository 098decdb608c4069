------------------------------ MODULE MC_Many -------------------------------
(***************************************************************************)
(* All ways to construct and step Sims simulations in MaxCalls calls, nested *)
(* or not, with at most MaxFaults faults.  Answers of the solver are pairs    *)
(* of a simulation and the number of its solve.  Every schedule is printed   *)
(* as the sequence of its actions, for replay.                              *)
(*                                                                         *)
(* own[i] collects what happened to simulation i; alone, these would have    *)
(* led to the same state.                                                   *)
(***************************************************************************)
EXTENDS Many, TLC, Json
CONSTANTS Sims, MaxCalls, MaxSteps, MaxFaults, MaxDepth
VARIABLES w, own, log, count, faults
vars == <<w, own, log, count, faults>>
S == 1..Sims
Init == w = World(Sims) /\ own = [i \in S |-> <<>>] /\ log = <<>> /\ count = 0 /\ faults = 0
Note(i, op, n) == /\ log' = Append(log, [op |-> op, who |-> i, n |-> n])
                  /\ own' = [own EXCEPT ![i] = Append(@, [op |-> op, n |-> n])]
Answer(i) == <<i, Len(w.m[i].steps)>>
Initial(i) == [y |-> <<i, "id">>, theta |-> <<i, "initial">>]
Construct(i) == /\ count < MaxCalls /\ Len(w.calls) < MaxDepth /\ MayConstruct(w, i)
                /\ w' = Entered(w, i, Constructed(Nothing, Initial(i)))
                /\ Note(i, "new", 0) /\ count' = count + 1 /\ UNCHANGED faults
Request(i) == /\ count < MaxCalls /\ Len(w.calls) < MaxDepth /\ MayRequest(w, i)
              /\ \E n \in 1..MaxSteps : w' = Entered(w, i, Requested(w.m[i], n)) /\ Note(i, "run", n)
              /\ count' = count + 1 /\ UNCHANGED faults
Now == w.m[Current(w)]
Working == Current(w) # 0 /\ Busy(Now)
SolveMech == /\ Working /\ Now.phase = "mech"
             /\ w' = Changed(w, Moved(Now, <<Current(w), "y", Len(Now.steps)>>))
             /\ Note(Current(w), "mech", 0) /\ UNCHANGED <<count, faults>>
SolveHeat == /\ Working /\ Now.phase = "heat"
             /\ w' = Changed(w, Heated(Now, <<Current(w), "theta", Len(Now.steps)>>))
             /\ Note(Current(w), "heat", 0) /\ UNCHANGED <<count, faults>>
Fault == /\ Working /\ faults < MaxFaults
         /\ w' = Changed(w, Abandoned(Now))
         /\ Note(Current(w), "fault", 0) /\ faults' = faults + 1 /\ UNCHANGED count
Return == /\ Current(w) # 0 /\ ~Busy(Now)
          /\ w' = Left(w)
          /\ Note(Current(w), "return", 0) /\ UNCHANGED <<count, faults>>
          /\ (count = MaxCalls /\ Len(w.calls) = 1) => PrintT("CASE " \o ToJson(log'))
Next == (\E i \in S : Construct(i) \/ Request(i)) \/ SolveMech \/ SolveHeat \/ Fault \/ Return
Spec == Init /\ [][Next]_vars

(* what simulation i alone would have become *)
RECURSIVE Alone(_, _, _)
Alone(i, s, q) ==
  IF q = <<>> THEN s
  ELSE LET e == Head(q)
           t == CASE e.op = "new" -> Constructed(Nothing, Initial(i))
                  [] e.op = "run" -> Requested(s, e.n)
                  [] e.op = "mech" -> Moved(s, <<i, "y", Len(s.steps)>>)
                  [] e.op = "heat" -> Heated(s, <<i, "theta", Len(s.steps)>>)
                  [] e.op = "fault" -> Abandoned(s)
                  [] OTHER -> IF Len(s.steps) < 2 THEN Nothing ELSE Returned(s)
       IN Alone(i, t, Tail(q))
Independent == \A i \in S : w.m[i] = Alone(i, Nothing, own[i])
OwnAnswers == \A i \in S : \A k \in 1..Len(w.m[i].steps) : w.m[i].steps[k].y[1] = i /\ w.m[i].steps[k].theta[1] = i
(* only the current simulation changes *)
OthersKeep == [][\A i \in S : i # Current(w) /\ i # Current(w') => w'.m[i] = w.m[i]]_vars
(* calls end in the order opposite to that of their beginning, once each *)
Proper == \A j, k \in 1..Len(w.calls) : j # k => w.calls[j] # w.calls[k]
=============================================================================
