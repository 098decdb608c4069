------------------------------- MODULE MC_Fem -------------------------------
(* Properties of the finite elements and rules of module Fem, over pairs of *)
(* neighbouring triangles on a small lattice and nodal data (C17 - C20).     *)
EXTENDS Fem
CONSTANTS Lattice, Data
VARIABLES q, w, ready

(* a quadrilateral: triangles 1-2-3 and 1-3-4, both of either orientation *)
Sites == (0..Lattice) \X (0..Lattice)
P(k) == q[k]
Area(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (c[1] - a[1]) * (b[2] - a[2])
Init == /\ q \in {<<a, b, <<0, 0>>, <<0, 0>>>> : a \in {<<0, 0>>, <<1, 0>>}, b \in Sites}
        /\ w = 0 /\ ready = FALSE
Next == /\ ~ready /\ ready' = TRUE
        /\ \E c \in Sites, d \in Sites : q' = <<q[1], q[2], c, d>>
        /\ Area(q'[1], q'[2], q'[3]) * Area(q'[1], q'[3], q'[4]) > 0  \* the same orientation: they do not overlap
        /\ w' \in 1..Data
Spec == Init /\ [][Next]_<<q, w, ready>>

T1 == <<q[1], q[2], q[3]>>
T2 == <<q[1], q[3], q[4]>>
(* pseudo-random nodal data of vertex v *)
Nodal(v) == [k \in 1..6 |-> ((w * 37 + v * 101 + k * 59 + w * v * k * 17) % 23) - 11]
W1 == <<Nodal(1), Nodal(2), Nodal(3)>>
W2 == <<Nodal(1), Nodal(3), Nodal(4)>>
Eps == RPow(2, -150)
Approx(x, y) == RLe(RAbs(RSub(x, y)), RMul(Eps, RAdd(1, RAbs(y))))
Approx2(u, v) == \A k \in 1..2 : Approx(u[k], v[k])
Ss == {RDiv(0, 1), RDiv(1, 3), RDiv(1, 2), RDiv(4, 5)}
Corner(i) == [k \in 1..3 |-> IF k = i THEN 1 ELSE 0]

(* values, gradients and Hessians at the vertices are the given ones *)
Nodes == ready => LET E == Element(T1, W1) IN \A i \in 1..3 :
  /\ Approx(ElemValue(E, Corner(i)), W1[i][1])
  /\ Approx2(ElemGrad(E, Corner(i)), <<W1[i][2], W1[i][3]>>)
  /\ LET H == ElemHess(E, Corner(i))
     IN Approx2(H[1], <<W1[i][4], W1[i][5]>>) /\ Approx2(H[2], <<W1[i][5], W1[i][6]>>)
(* value and gradient agree on the common edge 1-3, and with the edge formula *)
Smooth == ready => LET E == Element(T1, W1) F == Element(T2, W2) IN \A s \in Ss :
  LET t == RSub(1, s)
  IN /\ Approx(ElemValue(E, <<s, 0, t>>), ElemValue(F, <<s, t, 0>>))
     /\ Approx2(ElemGrad(E, <<s, 0, t>>), ElemGrad(F, <<s, t, 0>>))
     /\ Approx(EdgeC1(q[1], q[3], Nodal(1), Nodal(3), s), ElemValue(E, <<s, 0, t>>))
     /\ Approx(P1Value(<<W1[1][1], W1[2][1], W1[3][1]>>, <<s, 0, t>>), EdgeValue(<<W1[1][1], W1[3][1]>>, s))
(* the affine gradient is the slope *)
Affine == ready => \A i \in 1..3 : LET u == <<W1[1][1], W1[2][1], W1[3][1]>> j == Nxt(i) IN
  Approx(PDot(P1Grad(T1, u), PSub(T1[j], T1[i])), u[j] - u[i])
(* x^a y^b of degree four is reproduced *)
Mono(a, b, p) == RMul(RPow(p[1], a), RPow(p[2], b))
Coef(n, c) == IF c = 0 THEN 1 ELSE IF c = 1 THEN n ELSE n * (n - 1)
DMono(a, b, da, db, p) == IF da > a \/ db > b THEN R(0)
                          ELSE RMul(Coef(a, da) * Coef(b, db), Mono(a - da, b - db, p))
PolyData(a, b, p) == <<DMono(a, b, 0, 0, p), DMono(a, b, 1, 0, p), DMono(a, b, 0, 1, p),
                       DMono(a, b, 2, 0, p), DMono(a, b, 1, 1, p), DMono(a, b, 0, 2, p)>>
Ls == {<<RDiv(1, 3), RDiv(1, 3), RDiv(1, 3)>>, <<RDiv(1, 5), RDiv(1, 2), RDiv(3, 10)>>, <<RDiv(1, 2), RDiv(1, 2), 0>>}
Reproduces == (ready /\ w = 1) => \A a \in 0..4 : \A b \in 0..4 - a : \A l \in Ls :
  LET E == Element(T1, [i \in 1..3 |-> PolyData(a, b, T1[i])])
      want == PolyData(a, b, At2(T1, l))
      H == ElemHess(E, l)
  IN /\ Approx(ElemValue(E, l), want[1]) /\ Approx2(ElemGrad(E, l), <<want[2], want[3]>>)
     /\ Approx2(H[1], <<want[4], want[5]>>) /\ Approx2(H[2], <<want[5], want[6]>>)
(* gradient and Hessian are derivatives: central differences of a quintic *)
Step == RPow(2, -30)
Shift(l, i, j, h) == [k \in 1..3 |-> IF k = i THEN RAdd(l[k], h) ELSE IF k = j THEN RSub(l[k], h) ELSE l[k]]
Derivative == ready => LET E == Element(T1, W1) IN \A l \in Ls : \A i \in 1..2 :
  LET dir == PSub(T1[i], T1[3])
      diff(f(_)) == RDiv(RSub(f(Shift(l, i, 3, Step)), f(Shift(l, i, 3, RNeg(Step)))), RMul(2, Step))
      val(m) == ElemValue(E, m)
      gx(m) == ElemGrad(E, m)[1]
      gy(m) == ElemGrad(E, m)[2]
      H == ElemHess(E, l)
      near(x, y) == RLe(RAbs(RSub(x, y)), RPow(2, -35))
  IN /\ near(diff(val), PDot(ElemGrad(E, l), dir))
     /\ near(diff(gx), PDot(H[1], dir)) /\ near(diff(gy), PDot(H[2], dir))
(* coordinates *)
Located == ready => \A l \in Ls : \A i \in 1..3 : Approx(Bary(T1, At2(T1, l))[i], l[i])
Rules == /\ ExactFor(Centroid, 1, Eps) /\ ExactFor(Rule2, 2, Eps) /\ ExactFor(Rule5, 5, Eps)
         /\ ~ExactFor(Rule2, 3, Eps) /\ ~ExactFor(Rule5, 6, Eps)
ASSUME Rules
=============================================================================
