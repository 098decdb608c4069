------------------------------ MODULE TraceSim ------------------------------
(***************************************************************************)
(* Recorded simulations against the state machine Simulation and the        *)
(* functionals of module Energy (C01 - C05).                                *)
(*                                                                         *)
(* A trace has the mesh (points, triangles, edges of the boundary and of    *)
(* its free part; for kind "c1" also the refined points and triangles), the *)
(* parameters, the loads as polynomials, and in `check` the groups of       *)
(* conditions that are to be decided.                                       *)
(***************************************************************************)
EXTENDS TraceRun, Energy, Simulation

M(tr) == [points |-> tr.points, triangles |-> tr.triangles]
N(tr) == [points |-> tr.fine_points, triangles |-> tr.fine_triangles]
C1(tr) == tr.kind = "c1"
Checks(tr, g) == \E k \in 1..Len(tr.check) : tr.check[k] = g

(* ------------------------------ states --------------------------------- *)
Initial(tr) ==
  [y |-> [k \in 1..Len(tr.points) |->
            LET p == tr.points[k]
            IN IF C1(tr) THEN <<<<p[1], "1", "0", "0", "0", "0">>, <<p[2], "0", "1", "0", "0", "0">>>>
               ELSE <<p[1], p[2]>>],
   theta |-> [k \in 1..(IF C1(tr) THEN Len(tr.fine_points) ELSE Len(tr.points)) |-> tr.theta0]]
Flat2D(y) == Concat(y)
FlatOf(tr, y) == IF C1(tr) THEN Concat(Concat(y)) ELSE Concat(y)
NearY(tr, a, b) == LET x == TLCEval(FlatOf(tr, a)) z == TLCEval(FlatOf(tr, b))
                   IN Len(x) = Len(z) /\ \A k \in 1..Len(x) : CloseTo(x[k], z[k], tr.magnitude)
NearTheta(a, b) == CloseSeq(a, b)

(* -------------------------------- loads -------------------------------- *)
(* a polynomial is a sequence of <<coefficient, power of t, of x, of y, on from, until>> *)
PolyAt(p, t, x, y) == RSum([k \in 1..Len(p) |->
  IF RLt(t, p[k][5]) \/ ~RLt(t, p[k][6]) THEN 0 ELSE RMul(RMul(p[k][1], RPow(t, p[k][2])), RMul(RPow(x, p[k][3]), RPow(y, p[k][4])))])
TimeOf(tr, frame) == RDiv(frame, tr.fps)
TractionAt(tr, frame) == TLCEval([k \in 1..Len(tr.points) |->
  [i \in 1..2 |-> RRound(PolyAt(tr.traction[i], TimeOf(tr, frame), tr.points[k][1], tr.points[k][2]))]])
ExternalAt(tr, frame) == RRound(PolyAt(tr.external, TimeOf(tr, frame), 0, 0))

(* --------------------- differences of the objective --------------------- *)
(* e.probe.a, e.probe.b: two states of the unknowns; e.probe.diff: by how    *)
(* much the posed objective is larger at a than at b                        *)
MechDiff(tr, q, a, b) ==
  IF C1(tr) THEN RSub(RegMech(M(tr), N(tr), q.y, q.theta, a, tr.fps, tr.reg), RegMech(M(tr), N(tr), q.y, q.theta, b, tr.fps, tr.reg))
  ELSE RSub(PlainMech(M(tr), q.y, q.theta, a, tr.fps), PlainMech(M(tr), q.y, q.theta, b, tr.fps))
MechScale(tr, q, a) ==
  IF C1(tr) THEN RegMechSize(M(tr), N(tr), q.y, a, tr.fps, tr.reg) ELSE PlainMechSize(M(tr), q.y, a, tr.fps)
HeatDiff(tr, q, a, b) ==
  IF C1(tr) THEN RSub(RegHeat(M(tr), N(tr), q.y, q.new, q.theta, a, tr.fps), RegHeat(M(tr), N(tr), q.y, q.new, q.theta, b, tr.fps))
  ELSE RSub(PlainHeat(M(tr), q.y, q.new, q.theta, a, tr.fps), PlainHeat(M(tr), q.y, q.new, q.theta, b, tr.fps))
HeatScale(tr, q, a) ==
  IF C1(tr) THEN RMul(RAdd(1, tr.fps), 100000) ELSE PlainHeatSize(M(tr), q.y, q.new, q.theta, a, tr.fps)
MechMesh(tr) == IF C1(tr) THEN N(tr) ELSE M(tr)
WorkDiff(tr, rule, g, a, b) == RSub(Work(M(tr), tr.free, rule, g, a), Work(M(tr), tr.free, rule, g, b))
ExchangeDiff(tr, rule, ext, a, b) ==
  RSub(Exchange(MechMesh(tr), tr.outer, rule, a, ext), Exchange(MechMesh(tr), tr.outer, rule, b, ext))

Posed(tr, s, e) ==
  LET a == e.probe.a b == e.probe.b
      got == R(e.probe.diff)
      near(x, size) == CloseTo(got, x, size)
  IN IF e.kind = "mech"
     THEN LET q == MechProblem(s)
              d == TLCEval(MechDiff(tr, q, a, b))
              w(rule) == IF C1(tr) THEN R(0) ELSE WorkDiff(tr, rule, TractionAt(tr, q.frame), a, b)
              size == TLCEval(MechScale(tr, q, a))
          IN <<<<"mechanical problem is posed with the last recorded state",
                 near(RSub(d, w(EdgeMid)), size) \/ near(RSub(d, w(EdgeSimpson)), size)>>>>
     ELSE LET q == HeatProblem(s)
              d == TLCEval(HeatDiff(tr, q, a, b))
              ext == ExternalAt(tr, q.frame)
              x(rule) == ExchangeDiff(tr, rule, ext, a, b)
              size == TLCEval(HeatScale(tr, q, a))
          IN <<<<"thermal problem is posed with the last recorded state and the new deformation",
                 \/ near(RAdd(d, x(EdgeMid)), size) \/ near(RAdd(d, x(EdgeSimpson)), size)
                 \/ C1(tr) /\ near(d, size)>>>>

(* C02: e.probe.bare is the difference for the simulation without loads; the  *)
(* sums of the loads over the boundary, without signs, limit the rounding    *)
Faint == RDiv(Tol, 1000)
Small(tr, size, x) == RLe(RAbs(x), RAdd(RMul(Tol, tr.magnitude), RMul(Faint, size)))
SizeOf(v) == TLCEval([k \in 1..Len(v) |-> TLCEval([i \in 1..Len(v[k]) |-> RAbs(v[k][i])])])
Loads(tr, s, e) ==
  LET a == e.probe.a b == e.probe.b
      got == TLCEval(RSub(e.probe.diff, e.probe.bare))
      \* positions are the first of the nodal data
      pos(y) == IF C1(tr) THEN [k \in 1..Len(y) |-> <<y[k][1][1], y[k][2][1]>>] ELSE y
  IN IF e.kind = "mech"
     THEN LET g == TractionAt(tr, MechProblem(s).frame)
              w(rule) == RNeg(WorkDiff(tr, rule, g, pos(a), pos(b)))
              abs == SizeOf(g)
              size == TLCEval(RAdd(Work(M(tr), tr.free, EdgeSimpson, abs, SizeOf(pos(a))), Work(M(tr), tr.free, EdgeSimpson, abs, SizeOf(pos(b)))))
              near(v) == Small(tr, size, RSub(got, v))
              fits == near(w(EdgeMid)) \/ (~C1(tr) /\ near(w(EdgeSimpson)))
          IN <<<<"the traction is not ignored", Small(tr, size, got) => Small(tr, size, w(EdgeSimpson)) \/ fits>>,
               <<"work of the traction", ~Small(tr, size, got) => (C1(tr) \/ fits)>>>>
     ELSE LET ext == ExternalAt(tr, HeatProblem(s).frame)
              x(rule) == RSub(ExchangeDiff(tr, rule, ext, a, b), ExchangeDiff(tr, rule, 0, a, b))
              size == TLCEval(RAdd(Exchange(MechMesh(tr), tr.outer, EdgeSimpson, a, ext), Exchange(MechMesh(tr), tr.outer, EdgeSimpson, b, ext)))
              near(v) == Small(tr, size, RSub(got, v))
              fits == near(x(EdgeMid)) \/ near(x(EdgeSimpson))
          IN <<<<"the external temperature is not ignored", Small(tr, size, got) => fits>>,
               <<"heat exchange with the surroundings", ~Small(tr, size, got) => fits>>>>

(* C03: e.probe.twin is the difference for the undisturbed simulation *)
Undisturbed(tr, e) ==
  <<<<"the problem posed is that of an undisturbed run", Has(e.probe, "twin") => CloseTo(e.probe.diff, e.probe.twin, tr.magnitude)>>>>

(* C04: e.values is a state of the unknowns that is admitted, e.moves are     *)
(* random changes that lead to other admitted ones, and e.freedom is the      *)
(* dimension of the space of these changes.  tr.sides are the segments that   *)
(* are fixed.                                                                *)
Along(s) == <<RSub(s[2][1], s[1][1]), RSub(s[2][2], s[1][2])>>
Turn(u, v) == RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))
Inner(u, v) == RAdd(RMul(u[1], v[1]), RMul(u[2], v[2]))
OnSide(s, p) == LET d == Along(s) q == <<RSub(p[1], s[1][1]), RSub(p[2], s[1][2])>> n == Inner(d, d)
                IN /\ RLe(RAbs(Turn(d, q)), RMul(Tol, n))
                   /\ RLe(RNeg(RMul(Tol, n)), Inner(d, q)) /\ RLe(Inner(d, q), RMul(RAdd(1, Tol), n))
(* the fixed sides through a point, one of each direction *)
Parallel(u, v) == RLe(Sq(Turn(u, v)), RMul(RMul(Tol, Inner(u, u)), Inner(v, v)))
SidesAt(tr, p) ==
  LET on == {k \in 1..Len(tr.sides) : OnSide(tr.sides[k], p)}
  IN {k \in on : \A j \in on : j < k => ~Parallel(Along(tr.sides[j]), Along(tr.sides[k]))}
(* what of the data of a vertex determines the deformation on sides in these  *)
(* directions: the value, the derivatives along them                         *)
Count(n, most) == IF n < most THEN n ELSE most
Determined(tr, n) == IF n = 0 THEN 0 ELSE IF C1(tr) THEN 1 + Count(n, 2) + Count(n, 3) ELSE 1
RECURSIVE Total0(_)
Total0(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total0(Tail(s))
Valued(tr, d) == IF C1(tr) THEN d[1] ELSE d
Slope(d, v) == RAdd(RMul(v[1], d[2]), RMul(v[2], d[3]))
Bend(d, v) == RSum(<<RMul(Sq(v[1]), d[4]), RMul(RMul(2, RMul(v[1], v[2])), d[5]), RMul(Sq(v[2]), d[6])>>)
Clamps(tr, e) ==
  LET n == Len(tr.points)
      dirs == TLCEval([k \in 1..n |-> TLCEval({Along(tr.sides[j]) : j \in SidesAt(tr, tr.points[k])})])
      held == {k \in 1..n : dirs[k] # {}}
      free == (IF C1(tr) THEN 12 ELSE 2) * n - 2 * Total0([k \in 1..n |-> Determined(tr, Cardinality(dirs[k]))])
      at(y, k, i) == y[k][i]
  IN IF e.kind # "mech" THEN <<<<"nothing is clamped in the thermal problem", e.freedom = Len(e.values)>>>>
     ELSE <<<<"everything that moves a fixed side is clamped",
              \A m \in 1..Len(e.moves) : \A k \in held : \A i \in 1..2 :
                LET d == at(e.moves[m], k, i)
                IN /\ Close(Valued(tr, d), 0)
                   /\ C1(tr) => \A v \in dirs[k] : Close(Slope(d, v), 0) /\ Close(Bend(d, v), 0)>>,
            <<"clamped at the identity",
              \A k \in held : \A i \in 1..2 :
                LET d == at(e.values, k, i)
                IN /\ Close(Valued(tr, d), tr.points[k][i])
                   /\ C1(tr) => \A v \in dirs[k] : Close(Slope(d, v), v[i]) /\ Close(Bend(d, v), 0)>>,
            <<"nothing else is clamped", e.freedom >= free>>>>
(* points of fixed sides in a recorded state *)
Sides(tr, e) ==
  <<<<"fixed sides stay where they are", \A k \in 1..Len(e.points) :
        /\ \E j \in 1..Len(tr.sides) : OnSide(tr.sides[j], e.points[k])
        /\ Close(e.y[k][1], e.points[k][1]) /\ Close(e.y[k][2], e.points[k][2])>>>>

(* C05: e.admissible tells for every unknown which of the values at the      *)
(* distances tr.factors times r from its start it may take                  *)
Window(tr, s, e) ==
  LET q == MechProblem(s)
      theta == e.kind = "heat"
      want(x, f) == LET c == RAdd(x, RMul(f, tr.r))
                    IN RLe(RAbs(f), 1) /\ (theta => RLe(0, c))
      \* the start itself and values next to zero are not decided
      open(x, f) == theta /\ RLe(RAbs(RAdd(x, RMul(f, tr.r))), RMul(tr.r, Tol))
      good(x, adm) == \A m \in 1..Len(tr.factors) : open(x, tr.factors[m]) \/ adm[m] = want(x, tr.factors[m])
      ok(x, adm, clamped) == clamped \/ good(x, adm)
  IN IF theta
     THEN <<<<"search window of the temperatures", \A k \in 1..Len(q.theta) : ok(q.theta[k], e.admissible[k], e.clamped[k])>>>>
     ELSE <<<<"search window of the deformation",
              \A k \in 1..Len(q.y) : \A i \in 1..2 :
                 IF C1(tr) THEN \A j \in 1..6 : ok(q.y[k][i][j], e.admissible[k][i][j], e.clamped[k][i][j])
                 ELSE ok(q.y[k][i], e.admissible[k][i], e.clamped[k][i])>>>>
(* temperatures may not become negative *)
Nonneg(tr, e) == IF Has(e, "negative") THEN <<<<"negative temperatures are excluded", \A k \in 1..Len(e.negative) : ~e.negative[k]>>>> ELSE <<>>

SolveConds(tr, s, e) ==
  IF ~(s.phase = e.kind) THEN <<<<"order of the solves", FALSE>>>>
  ELSE <<<<"a minimisation of one objective", e.objectives = 1 /\ e.sense = "minimize">>>>
       \o (IF Checks(tr, "start") THEN
             <<<<"the solve starts at the last recorded state",
               IF e.kind = "mech" THEN NearY(tr, e.start, MechProblem(s).y) ELSE NearTheta(e.start, HeatProblem(s).theta)>>>> ELSE <<>>)
       \o (IF Checks(tr, "posed") /\ Has(e, "probe") THEN Posed(tr, s, e) ELSE <<>>)
       \o (IF Checks(tr, "loads") /\ Has(e, "probe") THEN Loads(tr, s, e) ELSE <<>>)
       \o (IF Checks(tr, "undisturbed") /\ Has(e, "probe") THEN Undisturbed(tr, e) ELSE <<>>)
       \o (IF Checks(tr, "clamps") THEN Clamps(tr, e) ELSE <<>>)
       \o (IF Checks(tr, "window") THEN Window(tr, s, e) \o Nonneg(tr, e) ELSE <<>>)

StatesConds(tr, s, e) ==
  LET n == Len(s.steps)
  IN <<<<"number of recorded states", Len(e.states) = n>>,
       <<"recorded deformations", Len(e.states) = n => \A k \in 1..n : NearY(tr, e.states[k].y, s.steps[k].y)>>,
       <<"recorded temperatures", Len(e.states) = n => \A k \in 1..n : NearTheta(e.states[k].theta, s.steps[k].theta)>>,
       <<"a recorded state stays as it was", \A k \in 1..Len(e.states) : e.states[k].text = e.states[k].first>>>>
     \o IF Has(tr, "clean") /\ Checks(tr, "undisturbed")
        THEN <<<<"the history is that of an undisturbed run",
                 /\ Len(e.states) <= Len(tr.clean)
                 /\ \A k \in 1..Len(e.states) : NearY(tr, e.states[k].y, tr.clean[k].y) /\ NearTheta(e.states[k].theta, tr.clean[k].theta)>>>>
        ELSE <<>>

ReturnConds(tr, s, e) ==
  IF Busy(s) THEN <<<<"the requested steps are computed", FALSE>>>>
  ELSE <<<<"the call succeeds exactly if nothing failed", e.ok = (s.phase = "done")>>,
         <<"the caller gets the error that occurred", ~e.ok => e.planned>>>>
       \o StatesConds(tr, s, e)

MyStart(tr) == Nothing
MyConds(tr, s, e) ==
  CASE e.ev = "new" -> <<<<"nothing exists yet", s.phase = "none">>>>
    [] e.ev = "run" -> <<<<"ready for requests", s.phase = "idle">>>>
    [] e.ev = "solve" -> SolveConds(tr, s, e)
    [] e.ev = "fault" -> <<<<"a step is in progress", Busy(s)>>>>
    [] e.ev = "return" -> ReturnConds(tr, s, e)
    [] e.ev = "side" -> Sides(tr, e)
    [] OTHER -> <<<<"failed: " \o ToString(e), FALSE>>>>
MyAfter(tr, s, e) ==
  CASE e.ev = "new" -> Constructed(s, Initial(tr))
    [] e.ev = "run" -> Requested(s, e.n)
    [] e.ev = "solve" -> IF e.outcome = "raise" THEN Abandoned(s)
                         ELSE IF e.kind = "mech" THEN Moved(s, e.answer) ELSE Heated(s, e.answer)
    [] e.ev = "fault" -> Abandoned(s)
    [] e.ev = "return" -> Returned(s)
    [] OTHER -> s
=============================================================================
