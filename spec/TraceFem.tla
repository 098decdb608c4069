------------------------------ MODULE TraceFem ------------------------------
(***************************************************************************)
(* Recorded interpolations and integrals against module Fem (C17 - C20).    *)
(*                                                                         *)
(* A trace has a mesh (points, triangles, edges; vertices are numbered from *)
(* 0) and nodal data on it (data: a number per vertex for kind "p1", six    *)
(* numbers for "c1"; data2: a second set for deformations).  For refined    *)
(* interpolations, fine holds the points of the refined mesh.               *)
(***************************************************************************)
EXTENDS TraceRun, Fem

Corners(pts, t) == <<pts[t[1] + 1], pts[t[2] + 1], pts[t[3] + 1]>>
Of(data, t) == <<data[t[1] + 1], data[t[2] + 1], data[t[3] + 1]>>
SumAbs(s) == RSum([i \in 1..Len(s) |-> RAbs(s[i])])
Near2(u, v, mag) == Len(u) = 2 /\ CloseBy(u[1], v[1], mag) /\ CloseBy(u[2], v[2], mag)
Near22(A, B, mag) == Len(A) = 2 /\ Near2(A[1], B[1], mag) /\ Near2(A[2], B[2], mag)
Steep(T) == RMaxAbs(Concat(GradL(T)))

(* A field on a triangle: everything needed to evaluate it. *)
FieldOn(kind, T, d) == IF kind = "c1" THEN Element(T, d)
                       ELSE TLCEval([u |-> d, g |-> P1Grad(T, d)])
ValueOf(kind, E, l) == IF kind = "c1" THEN ElemValue(E, l) ELSE P1Value(E.u, l)
GradOf(kind, E, l) == IF kind = "c1" THEN ElemGrad(E, l) ELSE E.g
HessOf(kind, E, l) == ElemHess(E, l)
SizeOf(kind, E) == IF kind = "c1" THEN RMaxAbs(E.net) ELSE RMaxAbs(E.u)

(* samples: recorded value, gradient and Hessian (as far as recorded) at l *)
SampleConds(what, kind, T, d, samples) ==
  LET E == FieldOn(kind, T, d)
      m == TLCEval(SizeOf(kind, E))
      g == TLCEval(Steep(T))
      all(P(_)) == \A k \in 1..Len(samples) : P(samples[k])
      value(s) == Has(s, "value") => CloseBy(s.value, ValueOf(kind, E, s.l), m)
      grad(s) == Has(s, "grad") => Near2(s.grad, GradOf(kind, E, s.l), RMul(m, g))
      hess(s) == Has(s, "hess") => Near22(s.hess, HessOf(kind, E, s.l), RMul(m, Sq(g)))
  IN <<<<"value of the " \o what, all(value)>>,
       <<"gradient of the " \o what, all(grad)>>,
       <<"Hessian of the " \o what, all(hess)>>>>

(* components of a deformation, one sample per record *)
Component(s, i) == [l |-> s.l] @@ (IF Has(s, "value") THEN [value |-> s.value[i]] ELSE [none |-> 0])
                   @@ (IF Has(s, "grad") THEN [grad |-> s.grad[i]] ELSE [none |-> 0])
                   @@ (IF Has(s, "hess") THEN [hess |-> s.hess[i]] ELSE [none |-> 0])
Shaped(s) == /\ Has(s, "value") => Len(s.value) = 2
             /\ Has(s, "grad") => Len(s.grad) = 2
             /\ Has(s, "hess") => Len(s.hess) = 2
Parts(samples, i) == [k \in 1..Len(samples) |-> Component(samples[k], i)]
FieldConds(what, tr, T, t, e) ==
  IF Has(e, "two")
  THEN IF \E k \in 1..Len(e.samples) : ~Shaped(e.samples[k]) THEN <<<<"shape of the deformation", FALSE>>>>
       ELSE SampleConds("first component of the " \o what, tr.kind, T, Of(tr.data, t), Parts(e.samples, 1))
            \o SampleConds("second component of the " \o what, tr.kind, T, Of(tr.data2, t), Parts(e.samples, 2))
  ELSE SampleConds(what, tr.kind, T, Of(tr.data, t), e.samples)

(* on an edge: s is the weight of its first vertex *)
EdgeOf(tr, data, edge, s) ==
  LET i == edge[1] + 1 j == edge[2] + 1
  IN IF tr.kind = "c1" THEN EdgeC1(tr.points[i], tr.points[j], data[i], data[j], s)
     ELSE EdgeValue(<<data[i], data[j]>>, s)
EdgeSize(tr, data, edge) ==
  LET i == edge[1] + 1 j == edge[2] + 1
      len == Length(tr.points[i], tr.points[j])
      most(k, l) == RMaxAbs(<<data[i][k], data[j][k], data[i][l], data[j][l]>>)
  IN IF tr.kind = "c1"
     THEN RSum(<<most(1, 1), RMul(len, most(2, 3)), RMul(Sq(len), RMax(most(4, 5), most(6, 6)))>>)
     ELSE RMaxAbs(<<data[i], data[j]>>)
EdgeOk(tr, e, edge, s, value) ==
  IF Has(e, "two")
  THEN /\ Len(value) = 2
       /\ CloseBy(value[1], EdgeOf(tr, tr.data, edge, s), EdgeSize(tr, tr.data, edge))
       /\ CloseBy(value[2], EdgeOf(tr, tr.data2, edge, s), EdgeSize(tr, tr.data2, edge))
  ELSE CloseBy(value, EdgeOf(tr, tr.data, edge, s), EdgeSize(tr, tr.data, edge))

(* ------------------------------ refinement ----------------------------- *)
Inside(T, p) == LET l == Bary(T, p) IN \A i \in 1..3 : RLe(RNeg(Tol), l[i])
Holds(T, F) == \A i \in 1..3 : Inside(T, F[i])
CoarseOf(tr, F) == {k \in 1..Len(tr.triangles) : Holds(Corners(tr.points, tr.triangles[k]), F)}
FineConds(tr, e) ==
  LET F == TLCEval(Corners(tr.fine, e.tri))
      cs == TLCEval(CoarseOf(tr, F))
  IN IF Cardinality(cs) # 1 THEN <<<<"refined triangle lies in one original triangle", FALSE>>>>
     ELSE LET t == tr.triangles[CHOOSE k \in cs : TRUE]
              T == TLCEval(Corners(tr.points, t))
              moved == TLCEval([k \in 1..Len(e.samples) |->
                         [e.samples[k] EXCEPT !.l = Bary(T, At2(F, e.samples[k].l))]])
          IN FieldConds("refined interpolation", tr, T, t, [e EXCEPT !.samples = moved])
OnEdge(p, a, b) == LET d == PSub(b, a) v == PSub(p, a) n == PDot(d, d)
                       s == RDiv(PDot(v, d), n)
                   IN /\ RLe(RAbs(Cross2(d, v)), RMul(Tol, n))
                      /\ RLe(RNeg(Tol), s) /\ RLe(s, RAdd(1, Tol))
ParamOn(p, a, b) == LET d == PSub(a, b) IN RDiv(PDot(PSub(p, b), d), PDot(d, d))
FineEdgeConds(tr, e) ==
  LET p == tr.fine[e.edge[1] + 1] q == tr.fine[e.edge[2] + 1]
      on(k) == LET a == tr.points[tr.edges[k][1] + 1] b == tr.points[tr.edges[k][2] + 1]
               IN OnEdge(p, a, b) /\ OnEdge(q, a, b)
      cs == TLCEval({k \in 1..Len(tr.edges) : on(k)})
  IN IF cs = {} THEN <<<<"no value on an edge off the original edges", \A k \in 1..Len(e.samples) : e.samples[k].outcome = "error">>>>
     ELSE LET k == CHOOSE k \in cs : TRUE
              c == tr.edges[k]
              a == tr.points[c[1] + 1] b == tr.points[c[2] + 1]
              at(s) == At2(<<p, q, p>>, <<s, RSub(1, s), 0>>)
              good(x) == x.outcome = "ok" /\ EdgeOk(tr, e, c, ParamOn(at(x.s), a, b), x.value)
          IN <<<<"value on a refined edge", \A n \in 1..Len(e.samples) : good(e.samples[n])>>>>

(* ----------------------------- integration ----------------------------- *)
(* A polynomial on a triangle is a sequence of <<i, j, k, c>>; on an edge   *)
(* the sequence of its coefficients (powers of the parameter).              *)
Area(T) == RDiv(RAbs(Twice(T)), 2)
PolySize(p) == SumAbs([k \in 1..Len(p) |-> p[k][4]])
Degree(p) == LET ds == {p[k][1] + p[k][2] + p[k][3] : k \in 1..Len(p)}
             IN IF ds = {} THEN 0 ELSE CHOOSE d \in ds : \A x \in ds : x <= d
TriangleIntegral(T, p) == RMul(Area(T), RSum([k \in 1..Len(p) |-> RMul(p[k][4], Monomial(<<p[k][1], p[k][2], p[k][3]>>))]))
EdgeIntegral(a, b, p) == RMul(Length(a, b), RSum([k \in 1..Len(p) |-> RDiv(p[k], k)]))
Asked(e) == \A i \in 1..Len(e.asked) : \E j \in 1..Len(e.cells) : e.asked[i] = e.cells[j]
VolumeConds(tr, e) ==
  LET T(k) == Corners(tr.points, e.cells[k])
      n == Len(e.cells)
      exact == RSum([k \in 1..n |-> TriangleIntegral(T(k), e.poly[k])])
      mag == RSum([k \in 1..n |-> RMul(Area(T(k)), PolySize(e.poly[k]))])
  IN <<<<"harness: degree of the integrand", \A k \in 1..n : Degree(e.poly[k]) <= e.degree>>,
       <<"integral over triangles", CloseBy(e.value, exact, mag)>>,
       <<"only the listed triangles are evaluated", Asked(e)>>>>
LineConds(tr, e) ==
  LET a(k) == tr.points[e.cells[k][1] + 1] b(k) == tr.points[e.cells[k][2] + 1]
      n == Len(e.cells)
      exact == RSum([k \in 1..n |-> EdgeIntegral(a(k), b(k), e.poly[k])])
      mag == RSum([k \in 1..n |-> RMul(Length(a(k), b(k)), SumAbs(e.poly[k]))])
  IN <<<<"harness: degree of the integrand", \A k \in 1..n : Len(e.poly[k]) <= 2 * e.degree>>,
       <<"integral over edges", CloseBy(e.value, exact, mag)>>,
       <<"only the listed edges are evaluated", Asked(e)>>>>
LinearConds(e) ==
  <<<<"linear in the integrand", CloseBy(e.mixed, RAdd(RMul(e.a, e.f), RMul(e.b, e.g)),
        RAdd(RMul(RAbs(e.a), e.fabs), RMul(RAbs(e.b), e.gabs)))>>,
    <<"additive over the cells", CloseBy(RAdd(e.first, e.second), e.f, e.fabs)>>>>
RuleConds(e) ==
  LET rule == TLCEval([k \in 1..Len(e.weights) |-> <<e.weights[k], e.points[k]>>])
  IN IF Len(e.weights) # Len(e.points) THEN <<<<"one weight per point", FALSE>>>>
     ELSE <<<<"rule of degree " \o ToString(e.degree), ExactFor(rule, e.degree, Tol)>>,
            <<"iteration over the rule", e.iter = [k \in 1..Len(e.weights) |-> <<e.weights[k], e.points[k]>>]>>>>
EdgeRuleConds(e) ==
  LET n == Len(e.weights)
      power(d) == RSum([k \in 1..n |-> RMul(e.weights[k], RPow(e.points[k], d))])
  IN IF n # Len(e.points) THEN <<<<"one weight per point", FALSE>>>>
     ELSE <<<<"number of points", n = e.degree>>,
            <<"edge rule", \A d \in 0..(2 * e.degree - 1) : Close(power(d), RDiv(1, d + 1))>>,
            <<"iteration over the rule", e.iter = [k \in 1..n |-> <<e.weights[k], e.points[k]>>]>>>>
(* rules are accepted exactly if the weights add up to one and no point lies outside *)
AcceptConds(e) ==
  LET total == RSum(e.weights)
      off(p) == RLt(p[1], RNeg(Tol)) \/ RLt(p[2], RNeg(Tol)) \/ RLt(RAdd(1, Tol), RAdd(p[1], p[2]))
      good == RLe(RAbs(RSub(total, 1)), Tol) /\ \A k \in 1..Len(e.points) : ~off(e.points[k])
  IN <<<<"rules with wrong weights or outside points are rejected", ~good => e.outcome = "error">>,
       <<"rules are accepted", good => e.outcome = "ok">>>>

MyStart(tr) == "-"
MyConds(tr, s, e) ==
  CASE e.ev = "tri" -> FieldConds("interpolation", tr, Corners(tr.points, e.tri), e.tri, e)
    [] e.ev = "edge" -> <<<<"value on an edge: " \o e.by, \A k \in 1..Len(e.samples) : EdgeOk(tr, e, e.edge, e.samples[k].s, e.samples[k].value)>>>>
    [] e.ev = "reject" -> <<<<"rejected: " \o e.what, e.outcome = "error">>>>
    [] e.ev = "fine" -> FineConds(tr, e)
    [] e.ev = "fineedge" -> FineEdgeConds(tr, e)
    [] e.ev = "volume" -> VolumeConds(tr, e)
    [] e.ev = "line" -> LineConds(tr, e)
    [] e.ev = "linear" -> LinearConds(e)
    [] e.ev = "rule" -> RuleConds(e)
    [] e.ev = "edgerule" -> EdgeRuleConds(e)
    [] e.ev = "accept" -> AcceptConds(e)
    [] OTHER -> <<<<"failed: " \o ToString(e), FALSE>>>>
MyAfter(tr, s, e) == s
=============================================================================
