------------------------------ MODULE TraceMany -----------------------------
(***************************************************************************)
(* Recorded programs with several simulations against module Many (C27).    *)
(* tr.sims[i] describes simulation i as in TraceSim; its `clean` are the     *)
(* states it records when it is alone.  Events name their simulation.       *)
(***************************************************************************)
EXTENDS TraceSim, Many, Views

Its(tr, e) == tr.sims[e.who]
InCharge(w, e) == <<"the call in progress", Current(w) = e.who>>
(* the recorded states of all simulations that can be seen *)
AllStates(tr, w, e) ==
  Concat([i \in 1..Len(tr.sims) |->
    IF ~e.seen[i] THEN <<<<"a simulation exists once it is constructed", w.m[i].phase \in {"none", "mech", "heat"}>>>>
    ELSE StatesConds(tr.sims[i], w.m[i], [states |-> e.states[i]])])
PosOf(tr, st) == [v \in 1..Len(st.y) |-> IF C1(tr) THEN <<st.y[v][1][1], st.y[v][2][1]>> ELSE st.y[v]]
Pos(tr, s) == Concat([k \in 1..Len(s.steps) |-> PosOf(tr, s.steps[k])])
Limits(tr, s, e) ==
  LET ps == TLCEval(Pos(tr, s))
      want == TLCEval(Scales([k \in 1..Len(ps) |-> ps[k][1]], [k \in 1..Len(ps) |-> ps[k][2]], Concat([k \in 1..Len(s.steps) |-> s.steps[k].theta])))
      same(a, b) == Len(a) = 2 /\ Close(a[1], b[1]) /\ Close(a[2], b[2])
  IN <<<<"limits of its own pictures", same(e.xlim, want.x) /\ same(e.ylim, want.y)>>,
       <<"colours of its own pictures", same(e.clim, <<0, want.hot>>)>>>>
(* the picture of a state of the simulation shows all its vertices where they are now; that of the
   undeformed state does not leave the body, that of a plain state has no other points             *)
Shows(tr, s, e) ==
  LET at == TLCEval(PosOf(tr, s.steps[e.state]))
      near(p, q) == Close(p[1], q[1]) /\ Close(p[2], q[2])
      inside(q) == /\ RLe(RNeg(Tol), q[1]) /\ RLe(q[1], RAdd(tr.width, Tol))
                   /\ RLe(RNeg(Tol), q[2]) /\ RLe(q[2], RAdd(tr.height, Tol))
  IN IF e.state > Len(s.steps) THEN <<<<"a state of the simulation", FALSE>>>>
     ELSE <<<<"every vertex is shown", \A v \in 1..Len(at) : \E k \in 1..Len(e.drawn) : near(e.drawn[k], at[v])>>,
            <<"only the body is shown", IF C1(tr) THEN \A k \in 1..Len(e.drawn) : inside(e.drawn[k])
               ELSE \A k \in 1..Len(e.drawn) : \E v \in 1..Len(at) : near(e.drawn[k], at[v])>>>>

ManyStart(tr) == World(IF Has(tr, "sims") THEN Len(tr.sims) ELSE 0)
ManyConds(tr, w, e) ==
  CASE e.ev = "new" -> <<<<"a simulation can be constructed", MayConstruct(w, e.who)>>>>
    [] e.ev = "run" -> <<<<"a simulation can be called", MayRequest(w, e.who)>>>>
    [] e.ev = "solve" -> <<InCharge(w, e)>> \o (IF Current(w) = e.who THEN SolveConds(Its(tr, e), w.m[e.who], e) ELSE <<>>)
    [] e.ev = "return" -> IF Current(w) # e.who THEN <<InCharge(w, e)>>
                          ELSE IF Busy(w.m[e.who]) THEN <<<<"the requested steps are computed", FALSE>>>>
                          ELSE <<<<"the call succeeds exactly if nothing failed", e.ok = (w.m[e.who].phase = "done")>>>>
                               \o AllStates(tr, Left(w), e)
    [] e.ev = "look" -> Limits(Its(tr, e), w.m[e.who], e) \o Shows(Its(tr, e), w.m[e.who], e)
    [] e.ev = "given" -> <<<<"the given domain and parameters are left alone", e.text = Its(tr, e).given>>>>
    [] OTHER -> <<<<"failed: " \o ToString(e), FALSE>>>>
ManyAfter(tr, w, e) ==
  CASE e.ev = "new" -> Entered(w, e.who, Constructed(Nothing, Initial(Its(tr, e))))
    [] e.ev = "run" -> Entered(w, e.who, Requested(w.m[e.who], e.n))
    [] e.ev = "solve" -> Changed(w, IF e.outcome = "raise" THEN Abandoned(w.m[e.who])
                                    ELSE IF e.kind = "mech" THEN Moved(w.m[e.who], e.answer) ELSE Heated(w.m[e.who], e.answer))
    [] e.ev = "return" -> Left(w)
    [] OTHER -> w
=============================================================================
