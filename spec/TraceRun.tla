----------------------------- MODULE TraceRun ------------------------------
(* Runs a trace specification: the extending module provides, through the  *)
(* configuration file Trace.cfg, Start (the state a trace starts in),       *)
(* Conds (what an event must satisfy) and After (the state it leads to).    *)
EXTENDS TraceBase

CONSTANTS Start(_), Conds(_, _, _), After(_, _, _)
VARIABLES tIdx, eIdx, mState, failed
vars == <<tIdx, eIdx, mState, failed>>

TraceInit == /\ tIdx \in 1..Len(Traces)
             /\ eIdx = 0
             /\ mState = Start(Traces[tIdx])
             /\ failed = {}

TraceNext ==
  /\ failed = {}
  /\ eIdx < Len(Traces[tIdx].events)
  /\ tIdx' = tIdx
  /\ eIdx' = eIdx + 1
  /\ LET tr == Traces[tIdx]
         e == tr.events[eIdx + 1]
         failing == TLCEval(Failing(Conds(tr, mState, e)))
     IN /\ failed' = failing
        /\ mState' = IF failing = {} THEN After(tr, mState, e) ELSE mState
        /\ IF failing # {} \/ eIdx + 1 = Len(tr.events) THEN Report(tIdx, eIdx + 1, failing) ELSE TRUE

TraceSpec == TraceInit /\ [][TraceNext]_vars

(* Stateless traces *)
NoState(tr) == "-"
KeepState(tr, s, e) == s
=============================================================================
