--------------------------- MODULE TraceMaterial ----------------------------
(* Recorded values of the material laws against module Material (C22, C23). *)
EXTENDS TraceRun, Material

(* e: F, t, and the recorded values *)
M4(A, B, mag) == \A i \in 1..2 : \A j \in 1..2 : CloseTo(A[i][j], B[i][j], mag)
AtLeast(x, bound, mag) == RLe(RSub(bound, RMul(Tol, RAdd(1, mag))), x)
ElasticConds(e) ==
  LET F == e.F
      size == TLCEval(Size(F))
      steep == RMul(size, RAdd(1, RDiv(NormSq(F), Det(F))))
  IN <<<<"austenite potential", CloseTo(e.austenite, Austenite(F), size)>>,
       <<"martensite potential", CloseTo(e.martensite, Martensite(F), size)>>,
       <<"austenite potential is nonnegative", AtLeast(e.austenite, 0, size)>>,
       <<"martensite potential is nonnegative", AtLeast(e.martensite, 0, size)>>,
       <<"derivative of the austenite potential", M4(e.daustenite, DAustenite(F), steep)>>,
       <<"derivative of the martensite potential", M4(e.dmartensite, DMartensite(F), steep)>>,
       <<"total elastic potential", CloseTo(e.total, Total(F, e.t), size)>>,
       <<"fraction of austenite", Close(e.fraction, Fraction(e.t))>>,
       <<"rotated austenite", CloseTo(e.raustenite, e.austenite, size)>>,
       <<"rotated martensite", CloseTo(e.rmartensite, e.martensite, size)>>>>
(* values along a rising sequence of temperatures *)
RisingConds(e) ==
  <<<<"the fraction of austenite rises from zero towards one",
      /\ \A k \in 1..Len(e.t) : RLe(0, e.fraction[k]) /\ RLe(e.fraction[k], 1)
      /\ \A k \in 1..Len(e.t) - 1 : RLe(e.fraction[k], e.fraction[k + 1])
      /\ \A k \in 1..Len(e.t) : Close(e.fraction[k], Fraction(e.t[k]))>>,
    <<"the internal energy weight rises from zero",
      /\ \A k \in 1..Len(e.t) : CloseTo(e.weight[k], Weight(e.t[k]), 1)
      /\ \A k \in 1..Len(e.t) - 1 : RLe(RSub(e.weight[k], Tol), e.weight[k + 1])>>>>
ThermalConds(e) ==
  LET F == e.F P == e.P t == e.t
      size == TLCEval(Size(F))
      steep == TLCEval(RMul(size, RAdd(1, RDiv(NormSq(F), Det(F)))))
      move == TLCEval(RMul(RAdd(NormSq(F), NormSq(P)), RAdd(NormSq(F), NormSq(P))))
      A == TLCEval(PulledBack(F))
      hot == RAdd(1, RAbs(t))
  IN <<<<"internal energy weight", Close(e.weight, Weight(t))>>,
       <<"antiderivative of the weight", CloseTo(e.anti, Antiderivative(t), hot)>>,
       <<"internal energy", CloseTo(e.internal, Internal(F, t), RAdd(size, RMul(10, hot)))>>,
       <<"internal energy without entropy", CloseTo(e.internal0, InternalNoEntropy(F, t), size)>>,
       <<"antiderivative of the internal energy", CloseTo(e.antiinternal, AntiInternal(F, t), RMul(size, hot))>>,
       <<"coupling", M4(e.coupling, DCoupling(F, t), steep)>>,
       <<"dissipation potential", CloseTo(e.dissipation, Dissipation(P, F), move)>>,
       <<"dissipation potential is nonnegative", RLe(0, e.dissipation)>>,
       <<"no increment, no dissipation", REq(e.still, 0)>>,
       <<"symmetrised strain increment", M4(e.rate, StrainRate(P, F), move)>>,
       <<"dissipation rate", CloseTo(e.dissipationrate, DissipationRate(P, F, e.fps), RMul(move, Sq(e.fps)))>>,
       <<"dissipation under rotations", CloseTo(e.rdissipation, e.dissipation, move)>>,
       <<"pulled-back conductivity", M4(e.conductivity, A, RDiv(NormSq(F), Det(F)))>>,
       <<"pulled-back conductivity is symmetric",
         CloseTo(e.conductivity[1][2], e.conductivity[2][1], RDiv(NormSq(F), Det(F)))>>,
       <<"pulled-back conductivity is positive", RLt(0, e.conductivity[1][1]) /\ RLt(0, Det(e.conductivity))>>>>
HyperConds(e) ==
  <<<<"hyperelastic potential", CloseTo(e.value, HyperElastic(e.H), HyperElastic(e.H))>>>>

MyStart(tr) == "-"
MyConds(tr, s, e) ==
  CASE e.ev = "elastic" -> ElasticConds(e)
    [] e.ev = "rising" -> RisingConds(e)
    [] e.ev = "thermal" -> ThermalConds(e)
    [] e.ev = "hyper" -> HyperConds(e)
    [] OTHER -> <<<<"failed: " \o ToString(e), FALSE>>>>
MyAfter(tr, s, e) == s
=============================================================================
