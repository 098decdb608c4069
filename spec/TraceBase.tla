----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Common part of the trace specifications.                                *)
(*                                                                         *)
(* The file named by the environment variable TRACE has one recorded trace *)
(* per line: a record with a field `id`, a field `events` (a sequence of   *)
(* records) and whatever the scenario consists of.  Every trace is an      *)
(* initial state of its own, so TLC's workers validate them in parallel.   *)
(* The extending module says which conditions an event has to meet in a    *)
(* state and how the state changes.  Verdicts are total: an event that is  *)
(* not allowed does not stop TLC but ends its trace with the names of the  *)
(* conditions that failed, and every trace reports exactly one verdict.    *)
(***************************************************************************)
EXTENDS Num, Json, IOUtils, FiniteSets

Traces == ndJsonDeserialize(IOEnv.TRACE)

(* Conditions are given as sequences of pairs <<name, BOOLEAN>>. *)
Failing(conds) == {conds[i][1] : i \in {j \in 1..Len(conds) : ~conds[j][2]}}

Report(t, i, bad) == PrintT("VERDICT " \o ToJson([id |-> Traces[t].id, event |-> i,
                              failed |-> IF bad = {} THEN "ok" ELSE ToString(bad)]))
Has(r, f) == f \in DOMAIN r
=============================================================================
