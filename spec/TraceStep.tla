----------------------------- MODULE TraceStep ------------------------------
(***************************************************************************)
(* Recorded life of a mechanical or thermal step against StepObj (C09).     *)
(* Traces are as in TraceEnergy; `traction` and `external` give the loads   *)
(* as polynomials, `r` is the search radius, `factors` the distances (in    *)
(* units of r) from the previous state at which admissibility was recorded. *)
(***************************************************************************)
EXTENDS TraceRun, Energy, StepObj

M(tr) == [points |-> tr.points, triangles |-> tr.triangles]
N(tr) == [points |-> tr.fine_points, triangles |-> tr.fine_triangles]
C1(tr) == tr.form = "c1"
Identity(tr) == [k \in 1..Len(tr.points) |->
  LET p == tr.points[k] IN IF C1(tr) THEN <<<<p[1], "1", "0", "0", "0", "0">>, <<p[2], "0", "1", "0", "0", "0">>>> ELSE <<p[1], p[2]>>]
FlatY(tr, y) == IF C1(tr) THEN Concat(Concat(y)) ELSE Concat(y)
Keeps(tr, what, a, b) == LET u == TLCEval(IF what = "y" THEN FlatY(tr, a) ELSE a)
                            v == TLCEval(IF what = "y" THEN FlatY(tr, b) ELSE b)
                        IN Len(u) = Len(v) /\ \A k \in 1..Len(u) : RLe(RAbs(RSub(u[k], v[k])), RMul(RDiv(Tol, 1000), RAdd(1, RAbs(u[k]))))
UnknownIs(tr, s) == IF s.kind = "mech" THEN "y" ELSE "theta"

PolyAt(p, t, x, y) == RSum([k \in 1..Len(p) |-> RMul(RMul(p[k][1], RPow(t, p[k][2])), RMul(RPow(x, p[k][3]), RPow(y, p[k][4])))])
TractionAt(tr, t) == TLCEval([k \in 1..Len(tr.points) |->
  [i \in 1..2 |-> RRound(PolyAt(tr.traction[i], t, tr.points[k][1], tr.points[k][2]))]])

Near(got, want, size) == CloseTo(got, want, size)
Objective(tr, s, a, b, diff) ==
  IF s.kind = "mech"
  THEN IF C1(tr)
       THEN Near(diff, RSub(RegMech(M(tr), N(tr), s.prevY, s.prevTheta, a, tr.fps, tr.reg), RegMech(M(tr), N(tr), s.prevY, s.prevTheta, b, tr.fps, tr.reg)),
                 RegMechSize(M(tr), N(tr), s.prevY, a, tr.fps, tr.reg))
       ELSE LET d == TLCEval(RSub(PlainMech(M(tr), s.prevY, s.prevTheta, a, tr.fps), PlainMech(M(tr), s.prevY, s.prevTheta, b, tr.fps)))
                g == TractionAt(tr, s.time)
                w(rule) == RSub(Work(M(tr), tr.free, rule, g, a), Work(M(tr), tr.free, rule, g, b))
                size == TLCEval(RAdd(100, RAdd(PlainMechSize(M(tr), s.prevY, a, tr.fps), PlainMechSize(M(tr), s.prevY, b, tr.fps))))
            IN Near(diff, RSub(d, w(EdgeMid)), size) \/ Near(diff, RSub(d, w(EdgeSimpson)), size)
  ELSE LET ext == RRound(PolyAt(tr.external, s.time, 0, 0))
           d == TLCEval(IF C1(tr) THEN RSub(RegHeat(M(tr), N(tr), s.prevY, s.y, s.prevTheta, a, tr.fps), RegHeat(M(tr), N(tr), s.prevY, s.y, s.prevTheta, b, tr.fps))
                        ELSE RSub(PlainHeat(M(tr), s.prevY, s.y, s.prevTheta, a, tr.fps), PlainHeat(M(tr), s.prevY, s.y, s.prevTheta, b, tr.fps)))
           x(rule) == LET mesh == IF C1(tr) THEN N(tr) ELSE M(tr) IN RSub(Exchange(mesh, tr.outer, rule, a, ext), Exchange(mesh, tr.outer, rule, b, ext))
           size == TLCEval(IF C1(tr) THEN RegHeatSize(M(tr), N(tr), s.prevY, s.y, s.prevTheta, a, tr.fps)
                           ELSE RAdd(100, PlainHeatSize(M(tr), s.prevY, s.y, s.prevTheta, a, tr.fps)))
       IN Near(diff, RAdd(d, x(EdgeMid)), size) \/ Near(diff, RAdd(d, x(EdgeSimpson)), size) \/ (C1(tr) /\ Near(diff, d, size))

(* admissible: for every unknown (flattened) the verdict for every factor *)
WindowOk(tr, s, e) ==
  LET c == TLCEval(IF s.kind = "mech" THEN FlatY(tr, Centre(s)) ELSE Centre(s))
      want(x, f) == RLe(RAbs(f), 1) /\ (s.kind = "heat" => RLe(0, RAdd(x, RMul(f, tr.r))))
      open(x, f) == s.kind = "heat" /\ RLe(RAbs(RAdd(x, RMul(f, tr.r))), RMul(tr.r, Tol))
  IN \A k \in 1..Len(c) : e.fixed[k] \/ \A m \in 1..Len(tr.factors) : open(c[k], tr.factors[m]) \/ e.admissible[k][m] = want(c[k], tr.factors[m])

SolveConds(tr, s, e) ==
  <<<<"the solve starts with the unknown held, or afresh from the previous state",
       Keeps(tr, UnknownIs(tr, s), e.start, Unknown(s)) \/ Keeps(tr, UnknownIs(tr, s), e.start, Centre(s))>>,
    <<"the search window belongs to the latest previous state", WindowOk(tr, s, e)>>,
    <<"the objective reflects the latest data", Has(e, "probe") => Objective(tr, s, e.probe.a, e.probe.b, e.probe.diff)>>>>
ReadConds(tr, s, e) ==
  <<<<"previous deformation", Keeps(tr, "y", e.prev_y, s.prevY)>>,
    <<"deformation", Keeps(tr, "y", e.y, s.y)>>,
    <<"previous temperature", Keeps(tr, "theta", e.prev_theta, s.prevTheta)>>,
    <<"temperature", s.kind = "heat" => Keeps(tr, "theta", e.theta, s.theta)>>>>

MyStart(tr) == "none"
MyConds(tr, s, e) ==
  CASE e.ev = "new" -> <<>>
    [] e.ev = "update" -> <<<<"accepted: " \o e.what, e.ok = ~e.bad>>>>
    [] e.ev = "time" -> <<>>
    [] e.ev = "solve" -> SolveConds(tr, s, e)
    [] e.ev = "read" -> ReadConds(tr, s, e)
    [] e.ev = "create" -> <<<<"rejected: " \o e.what, ~e.ok>>>>
    [] OTHER -> <<<<"failed: " \o ToString(e), FALSE>>>>
MyAfter(tr, s, e) ==
  CASE e.ev = "new" -> IF e.kind = "mech" THEN NewMech(Identity(tr), [k \in 1..e.n |-> e.theta0]) ELSE NewHeat(e.prev_y, e.y, e.prev_theta)
    [] e.ev = "update" -> IF e.bad THEN Rejected(s)
                          ELSE (CASE e.what = "prev_y" -> GivenPrevY(s, e.data)
                                  [] e.what = "prev_theta" -> GivenPrevTheta(s, e.data)
                                  [] e.what = "y" -> GivenY(s, e.data))
    [] e.ev = "time" -> GivenTime(s, e.t)
    [] e.ev = "solve" -> Solved(s, e.answer)
    [] OTHER -> s
=============================================================================
