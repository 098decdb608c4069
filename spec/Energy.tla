------------------------------- MODULE Energy -------------------------------
(***************************************************************************)
(* The functionals minimised in one time step (C06 - C08) and the loads     *)
(* (C02), for piecewise affine and for C1 deformations.                     *)
(*                                                                         *)
(* A mesh M has fields points (vertices are numbered from 0) and triangles. *)
(* Plain deformations y are sequences of pairs, temperatures sequences of   *)
(* numbers.  C1 deformations are sequences of pairs of six nodal data.      *)
(* The values are only meaningful up to constants.                          *)
(***************************************************************************)
EXTENDS Fem, Material

Corn(pts, t) == <<pts[t[1] + 1], pts[t[2] + 1], pts[t[3] + 1]>>
AreaOf(T) == RDiv(RAbs(Twice(T)), 2)
At3(d, t) == <<d[t[1] + 1], d[t[2] + 1], d[t[3] + 1]>>
Comp(y, t, i) == <<y[t[1] + 1][i], y[t[2] + 1][i], y[t[3] + 1][i]>>
PlainStrain(T, y, t) == TLCEval(MRound(<<P1Grad(T, Comp(y, t, 1)), P1Grad(T, Comp(y, t, 2))>>))
Integrate(rule, f(_)) == RSum([k \in 1..Len(rule) |-> RRound(RMul(rule[k][1], f(rule[k][2])))])
SumOver(n, f(_)) == RSum([k \in 1..n |-> RRound(f(k))])

(* ------------------------------ mechanics ------------------------------ *)
(* elastic energy and dissipation on a triangle with constant gradients F   *)
(* (new) and P (previous) and previous temperature th at its vertices       *)
PlainMechOn(T, P, F, th, fps) ==
  LET f == Integrate(Rule2, LAMBDA l : Fraction(RDot(th, l)))
  IN RMul(AreaOf(T), RSum(<<RMul(f, Austenite(F)), RMul(RSub(1, f), Martensite(F)),
                            RMul(fps, Dissipation(P, F))>>))
PlainMech(M, prevY, prevTheta, y, fps) ==
  SumOver(Len(M.triangles), LAMBDA k :
    LET t == M.triangles[k] T == Corn(M.points, t)
    IN PlainMechOn(T, PlainStrain(T, prevY, t), PlainStrain(T, y, t), At3(prevTheta, t), fps))
PlainMechSize(M, prevY, y, fps) ==
  SumOver(Len(M.triangles), LAMBDA k :
    LET t == M.triangles[k] T == Corn(M.points, t)
        P == PlainStrain(T, prevY, t) F == PlainStrain(T, y, t)
    IN RMul(AreaOf(T), RAdd(Size(F), RMul(fps, Sq(RAdd(NormSq(P), NormSq(F)))))))

(* ------------------------------- heat ---------------------------------- *)
(* density at a point: gradient and value of the temperature, previous      *)
(* temperature, previous and new deformation gradient                       *)
Quadratic(A, v) == RSum(<<RMul(A[1][1], Sq(v[1])), RMul(RAdd(A[1][2], A[2][1]), RMul(v[1], v[2])), RMul(A[2][2], Sq(v[2]))>>)
Heating(P, F, dis, dc, tp, fps) ==      \* dis: dissipation rate, dc: coupling derivatives without the fraction
  RAdd(dis, RMul(RMul(Fraction(tp), fps), MDot(dc, MSub(F, P))))
(* everything that depends on the gradients only *)
HeatData(P, F, fps) ==
  TLCEval([K |-> MRound(PulledBack(P)), dis |-> RRound(DissipationRate(P, F, fps)), dc |-> MRound(MSub(DAustenite(P), DMartensite(P))),
           gF |-> RRound(Gap(F)), gP |-> RRound(Gap(P))])
HeatDensity(H, P, F, fps, grad, tp, t) ==
  RSum(<<Quadratic(H.K, grad),
         RNeg(RMul(t, Heating(P, F, H.dis, H.dc, tp, fps))),
         RMul(fps, RSum(<<RMul(RDiv(Entropy, 2), Sq(RSub(t, tp))),
                          RMul(Antiderivative(t), H.gF),
                          RNeg(RMul(RMul(Weight(tp), H.gP), t))>>))>>)
PlainHeat(M, prevY, y, prevTheta, theta, fps) ==
  SumOver(Len(M.triangles), LAMBDA k :
    LET t == M.triangles[k] T == Corn(M.points, t)
        P == PlainStrain(T, prevY, t) F == PlainStrain(T, y, t)
        H == HeatData(P, F, fps)
        tp == At3(prevTheta, t) tn == At3(theta, t)
        g == TLCEval(P1Grad(T, tn))
    IN RMul(AreaOf(T), Integrate(Rule2, LAMBDA l : HeatDensity(H, P, F, fps, g, RDot(tp, l), RDot(tn, l)))))
HeatSize(H, P, F, fps, grad, tmax) ==
  RSum(<<Quadratic(H.K, grad), RMul(tmax, RAdd(H.dis, RMul(fps, RMul(RAdd(1, NormSq(H.dc)), RAdd(1, RAdd(NormSq(P), NormSq(F))))))),
         RMul(fps, RMul(RAdd(Size(F), Size(P)), RAdd(1, RMul(10, Sq(tmax)))))>>)
PlainHeatSize(M, prevY, y, prevTheta, theta, fps) ==
  SumOver(Len(M.triangles), LAMBDA k :
    LET t == M.triangles[k] T == Corn(M.points, t)
        P == PlainStrain(T, prevY, t) F == PlainStrain(T, y, t)
        H == HeatData(P, F, fps)
        tn == At3(theta, t)
    IN RMul(AreaOf(T), HeatSize(H, P, F, fps, P1Grad(T, tn), RMaxAbs(tn \o At3(prevTheta, t)))))

(* ------------------------------ boundary ------------------------------- *)
(* n-point rules on edges: points and weights *)
EdgeMid == <<<<R(1), Half>>>>
EdgeSimpson == <<<<RDiv(1, 6), R(0)>>, <<RDiv(2, 3), Half>>, <<RDiv(1, 6), R(1)>>>>     \* exact for cubics
OnEdges(M, edges, rule, f(_, _)) ==
  SumOver(Len(edges), LAMBDA k :
    LET p == M.points[edges[k][1] + 1] q == M.points[edges[k][2] + 1]
    IN RMul(Length(p, q), RSum([m \in 1..Len(rule) |-> RMul(rule[m][1], f(edges[k], rule[m][2]))])))
AtEdge(d, e, s) == EdgeValue(<<d[e[1] + 1], d[e[2] + 1]>>, s)
(* heat exchange with surroundings of temperature ext *)
Exchange(M, edges, rule, theta, ext) ==
  OnEdges(M, edges, rule, LAMBDA e, s : RMul(RDiv(Transfer, 2), Sq(RSub(AtEdge(theta, e, s), ext))))
(* work of the traction g (one vector per vertex, interpolated along edges) *)
Work(M, edges, rule, g, y) ==
  OnEdges(M, edges, rule, LAMBDA e, s :
    RSum([i \in 1..2 |-> RMul(EdgeValue(<<g[e[1] + 1][i], g[e[2] + 1][i]>>, s),
                              EdgeValue(<<y[e[1] + 1][i], y[e[2] + 1][i]>>, s))]))

(* ---------------------------- regularised ------------------------------ *)
(* M: coarse mesh, N: refined mesh of the same body *)
Inside3(T, F) == \A i \in 1..3 : LET l == Bary(T, F[i]) IN \A j \in 1..3 : RLe(RNeg(Tol), l[j])
ParentOf(M, F) == CHOOSE k \in 1..Len(M.triangles) : Inside3(Corn(M.points, M.triangles[k]), F)
Elements(M, y, i) == TLCEval([k \in 1..Len(M.triangles) |->
  LET t == M.triangles[k] IN Element(Corn(M.points, t), Comp(y, t, i))])
(* the quadrature points of the refined mesh: weight (with area), parent    *)
(* triangle, coordinates in it and in the refined triangle, Bernstein forms *)
Nodes(M, N, hess) == TLCEval(Concat([n \in 1..Len(N.triangles) |->
  LET t == N.triangles[n]
      F == TLCEval(Corn(N.points, t))
      k == ParentOf(M, F)
      T == Corn(M.points, M.triangles[k])
      a == AreaOf(F)
  IN TLCEval([q \in 1..Len(Rule5) |->
        LET l == TLCEval([i \in 1..3 |-> RRound(Bary(T, At2(F, Rule5[q][2]))[i])])
        IN [w |-> RMul(a, Rule5[q][1]), parent |-> k, fine |-> n, at |-> Rule5[q][2],
            b4 |-> B4(l), b3 |-> IF hess THEN B3(l) ELSE <<>>]])]))
C1Strain(E1, E2, x) == TLCEval(<<ElemGradAt(E1[x.parent], x.b4), ElemGradAt(E2[x.parent], x.b4)>>)
C1Hyper(E1, E2, x) == <<ElemHessAt(E1[x.parent], x.b3), ElemHessAt(E2[x.parent], x.b3)>>
RegMech(M, N, prevY, prevTheta, y, fps, reg) ==
  LET P1e == Elements(M, prevY, 1) P2e == Elements(M, prevY, 2)
      Y1e == Elements(M, y, 1) Y2e == Elements(M, y, 2)
      xs == Nodes(M, N, TRUE)
  IN SumOver(Len(xs), LAMBDA n :
       LET x == xs[n]
           P == C1Strain(P1e, P2e, x) F == C1Strain(Y1e, Y2e, x)
           th == RDot(At3(prevTheta, N.triangles[x.fine]), x.at)
       IN RMul(x.w, RSum(<<Total(F, th), RMul(fps, Dissipation(P, F)), RMul(reg, HyperElastic(C1Hyper(Y1e, Y2e, x)))>>)))
RegMechSize(M, N, prevY, y, fps, reg) ==
  LET P1e == Elements(M, prevY, 1) P2e == Elements(M, prevY, 2)
      Y1e == Elements(M, y, 1) Y2e == Elements(M, y, 2)
      xs == Nodes(M, N, TRUE)
  IN SumOver(Len(xs), LAMBDA n :
       LET x == xs[n]
           P == C1Strain(P1e, P2e, x) F == C1Strain(Y1e, Y2e, x)
       IN RMul(x.w, RSum(<<Size(F), RMul(fps, Sq(RAdd(NormSq(P), NormSq(F)))), RMul(reg, HyperElastic(C1Hyper(Y1e, Y2e, x)))>>)))
RegHeat(M, N, prevY, y, prevTheta, theta, fps) ==
  LET P1e == Elements(M, prevY, 1) P2e == Elements(M, prevY, 2)
      Y1e == Elements(M, y, 1) Y2e == Elements(M, y, 2)
      xs == Nodes(M, N, FALSE)
      g == TLCEval([k \in 1..Len(N.triangles) |-> P1Grad(Corn(N.points, N.triangles[k]), At3(theta, N.triangles[k]))])
  IN SumOver(Len(xs), LAMBDA n :
       LET x == xs[n] t == N.triangles[x.fine]
           P == C1Strain(P1e, P2e, x) F == C1Strain(Y1e, Y2e, x)
           H == HeatData(P, F, fps)
       IN RMul(x.w, HeatDensity(H, P, F, fps, g[x.fine], RDot(At3(prevTheta, t), x.at), RDot(At3(theta, t), x.at))))
RegHeatSize(M, N, prevY, y, prevTheta, theta, fps) ==
  LET P1e == Elements(M, prevY, 1) P2e == Elements(M, prevY, 2)
      Y1e == Elements(M, y, 1) Y2e == Elements(M, y, 2)
      xs == Nodes(M, N, FALSE)
      g == TLCEval([k \in 1..Len(N.triangles) |-> P1Grad(Corn(N.points, N.triangles[k]), At3(theta, N.triangles[k]))])
  IN SumOver(Len(xs), LAMBDA n :
       LET x == xs[n] t == N.triangles[x.fine]
           P == C1Strain(P1e, P2e, x) F == C1Strain(Y1e, Y2e, x)
           H == HeatData(P, F, fps)
       IN RMul(x.w, HeatSize(H, P, F, fps, g[x.fine], RMaxAbs(At3(prevTheta, t) \o At3(theta, t)))))
=============================================================================
