-------------------------------- MODULE Fem ---------------------------------
(***************************************************************************)
(* Finite elements and quadrature (C17 - C20).                              *)
(*                                                                         *)
(* A triangle is a triple of points.  A point of it has barycentric         *)
(* coordinates l = <<l1, l2, l3>>.                                          *)
(*                                                                         *)
(* The C1 element (Bell) is described by what characterises it: on every    *)
(* triangle a polynomial of degree five with given value, gradient and      *)
(* Hessian at the vertices whose normal derivative on every edge has degree *)
(* three.  These 21 conditions are solved in Bernstein-Bezier form.         *)
(***************************************************************************)
EXTENDS Num, FiniteSets

(* ------------------------------ geometry ------------------------------- *)
PSub(p, q) == <<RSub(p[1], q[1]), RSub(p[2], q[2])>>
PDot(p, q) == RAdd(RMul(p[1], q[1]), RMul(p[2], q[2]))
Cross2(u, v) == RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))
Twice(T) == Cross2(PSub(T[2], T[1]), PSub(T[3], T[1]))          \* signed, twice the area
At2(T, l) == <<RSum([i \in 1..3 |-> RMul(l[i], T[i][1])]), RSum([i \in 1..3 |-> RMul(l[i], T[i][2])])>>
Nxt(i) == (i % 3) + 1
Prv(i) == ((i + 1) % 3) + 1
(* gradients of the barycentric coordinates *)
GradL(T) == LET d == Twice(T)
            IN [i \in 1..3 |-> <<RRound(RDiv(RSub(T[Nxt(i)][2], T[Prv(i)][2]), d)),
                                 RRound(RDiv(RSub(T[Prv(i)][1], T[Nxt(i)][1]), d))>>]
Bary(T, p) == LET d == Twice(T)
              IN [i \in 1..3 |-> RDiv(Cross2(PSub(T[Nxt(i)], p), PSub(T[Prv(i)], p)), d)]
Length(p, q) == LET d == PSub(q, p) IN RSqrt(PDot(d, d))

(* --------------------------- affine elements --------------------------- *)
P1Value(u, l) == RDot(u, l)
P1Grad(T, u) == LET g == GradL(T) IN [k \in 1..2 |-> RSum([i \in 1..3 |-> RMul(u[i], g[i][k])])]
EdgeValue(u, s) == RAdd(RMul(s, u[1]), RMul(RSub(1, s), u[2]))

(* ----------------------------- C1 elements ----------------------------- *)
(* multi-indices of degree n in a fixed order, and their positions *)
Multi(n) == LET ij == [k \in 1..((n + 1) * (n + 2)) \div 2 |-> k]
                row(k) == CHOOSE r \in 0..n : (r * (r + 1)) \div 2 < k /\ k <= ((r + 1) * (r + 2)) \div 2
            IN [k \in 1..((n + 1) * (n + 2)) \div 2 |->
                  LET r == row(k) m == k - (r * (r + 1)) \div 2 - 1      \* r = j + kk
                  IN <<n - r, r - m, m>>]
Index(a) == LET r == a[2] + a[3] IN (r * (r + 1)) \div 2 + a[3] + 1
Plus(a, i) == [a EXCEPT ![i] = @ + 1]
M5 == TLCEval(Multi(5))
M4 == TLCEval(Multi(4))
M3 == TLCEval(Multi(3))
Up4 == TLCEval([i \in 1..3 |-> TLCEval([k \in 1..15 |-> Index(Plus(M4[k], i))])])
Pairs == <<<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 2>>, <<2, 3>>, <<3, 3>>>>
Up3 == TLCEval([p \in 1..6 |-> TLCEval([k \in 1..10 |-> Index(Plus(Plus(M3[k], Pairs[p][1]), Pairs[p][2]))])])
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Multinomial(a) == Fact(a[1] + a[2] + a[3]) \div (Fact(a[1]) * Fact(a[2]) * Fact(a[3]))
C5 == TLCEval([k \in 1..21 |-> Multinomial(M5[k])])
C4 == TLCEval([k \in 1..15 |-> Multinomial(M4[k])])
C3 == TLCEval([k \in 1..10 |-> Multinomial(M3[k])])
Powers(x, n) == <<R(1), R(x), RPow(x, 2), RPow(x, 3), RPow(x, 4), RPow(x, 5)>>
Bernstein(ms, cs, l) ==
  LET p == TLCEval([i \in 1..3 |-> Powers(l[i], 5)])
  IN TLCEval([k \in 1..Len(ms) |-> RRound(RMul(cs[k], RMul(p[1][ms[k][1] + 1], RMul(p[2][ms[k][2] + 1], p[3][ms[k][3] + 1]))))])
B5(l) == Bernstein(M5, C5, l)
B4(l) == Bernstein(M4, C4, l)
B3(l) == Bernstein(M3, C3, l)

(* nodal data: <<u, u_x, u_y, u_xx, u_xy, u_yy>> *)
D1(w, e) == RAdd(RMul(w[2], e[1]), RMul(w[3], e[2]))
D2(w, e, f) == RSum(<<RMul(w[4], RMul(e[1], f[1])),
                      RMul(w[5], RAdd(RMul(e[1], f[2]), RMul(e[2], f[1]))),
                      RMul(w[6], RMul(e[2], f[2]))>>)
Net1(w, e) == RAdd(w[1], RDiv(D1(w, e), 5))
Net2(w, e) == RSum(<<w[1], RMul(RDiv(2, 5), D1(w, e)), RDiv(D2(w, e, e), 20)>>)
Net11(w, e, f) == RSum(<<w[1], RDiv(RAdd(D1(w, e), D1(w, f)), 5), RDiv(D2(w, e, f), 20)>>)
(* entry of the net next to vertex i with j-th and k-th vertex *)
NearVertex(T, W, a, i) ==
  LET j == Nxt(i) k == Prv(i)
      e == PSub(T[j], T[i]) f == PSub(T[k], T[i]) w == W[i]
  IN CASE a[i] = 5 -> R(w[1])
       [] a[i] = 4 -> IF a[j] = 1 THEN Net1(w, e) ELSE Net1(w, f)
       [] a[i] = 3 -> IF a[j] = 2 THEN Net2(w, e) ELSE IF a[k] = 2 THEN Net2(w, f) ELSE Net11(w, e, f)
(* the three remaining entries: for the edge from vertex i to vertex j, with
   opposite vertex k, the fourth difference of the normal derivative vanishes *)
Exps(i, x, j, y, k, z) == [m \in 1..3 |-> IF m = i THEN x ELSE IF m = j THEN y ELSE z]
MidEdge(T, net, g, i) ==
  LET j == Nxt(i) k == Prv(i)
      d == [m \in 1..3 |-> PDot(g[m], g[k])]
      c(x, y) == RSum(<<RMul(d[i], net[Index(Exps(i, x + 1, j, y, k, 0))]),
                        RMul(d[j], net[Index(Exps(i, x, j, y + 1, k, 0))]),
                        RMul(d[k], net[Index(Exps(i, x, j, y, k, 1))])>>)
      known == RSum(<<c(4, 0), RMul(-4, c(3, 1)), RMul(-4, c(1, 3)), c(0, 4),
                      RMul(6, RAdd(RMul(d[i], net[Index(Exps(i, 3, j, 2, k, 0))]),
                                   RMul(d[j], net[Index(Exps(i, 2, j, 3, k, 0))])))>>)
  IN RNeg(RDiv(known, RMul(6, d[k])))
(* the Bernstein-Bezier net of the C1 element with data W at the vertices of T *)
Net(T, W) ==
  LET g == TLCEval(GradL(T))
      outer == TLCEval([n \in 1..21 |->
                 LET a == M5[n]
                 IN RRound(IF a[1] >= 3 THEN NearVertex(T, W, a, 1)
                    ELSE IF a[2] >= 3 THEN NearVertex(T, W, a, 2)
                    ELSE IF a[3] >= 3 THEN NearVertex(T, W, a, 3) ELSE R(0))])
  IN TLCEval([n \in 1..21 |->
       LET a == M5[n]
       IN RRound(IF a = <<2, 2, 1>> THEN MidEdge(T, outer, g, 1)
                 ELSE IF a = <<1, 2, 2>> THEN MidEdge(T, outer, g, 2)
                 ELSE IF a = <<2, 1, 2>> THEN MidEdge(T, outer, g, 3)
                 ELSE outer[n])])
Round2(v) == <<RRound(v[1]), RRound(v[2])>>
(* everything needed to evaluate the element at points of T *)
Element(T, W) ==
  LET net == Net(T, W)
  IN [net |-> net, g |-> TLCEval([i \in 1..3 |-> GradL(T)[i]]),
      first |-> TLCEval([i \in 1..3 |-> TLCEval([k \in 1..15 |-> net[Up4[i][k]]])]),
      second |-> TLCEval([p \in 1..6 |-> TLCEval([k \in 1..10 |-> net[Up3[p][k]]])])]
ElemValue(E, l) == RDot(E.net, B5(l))
ElemGradAt(E, b4) ==
  LET d == TLCEval([i \in 1..3 |-> RMul(5, RDot(E.first[i], b4))])
  IN [k \in 1..2 |-> RRound(RSum([i \in 1..3 |-> RMul(d[i], E.g[i][k])]))]
ElemHessAt(E, b3) ==
  LET d == TLCEval([p \in 1..6 |-> RMul(20, RDot(E.second[p], b3))])
      h(k, m) == RRound(RSum([p \in 1..6 |->
                   LET i == Pairs[p][1] j == Pairs[p][2]
                   IN IF i = j THEN RMul(d[p], RMul(E.g[i][k], E.g[i][m]))
                      ELSE RMul(d[p], RAdd(RMul(E.g[i][k], E.g[j][m]), RMul(E.g[j][k], E.g[i][m])))]))
      xy == h(1, 2)
  IN <<<<h(1, 1), xy>>, <<xy, h(2, 2)>>>>
ElemGrad(E, l) == ElemGradAt(E, B4(l))
ElemHess(E, l) == ElemHessAt(E, B3(l))
(* on an edge from p to q, at s p + (1 - s) q: determined by the edge data *)
EdgeC1(p, q, wp, wq, s) ==
  LET e == PSub(q, p) f == PSub(p, q) t == RSub(1, s)
      net == <<R(wp[1]), Net1(wp, e), Net2(wp, e), Net2(wq, f), Net1(wq, f), R(wq[1])>>
      bin == <<1, 5, 10, 10, 5, 1>>
  IN RSum([k \in 1..6 |-> RMul(RMul(net[k], bin[k]), RMul(RPow(s, 6 - k), RPow(t, k - 1)))])

(* ----------------------------- quadrature ------------------------------ *)
(* a rule is a sequence of <<weight, l>> with weights adding up to one *)
Third == RDiv(1, 3)
Centroid == <<<<R(1), <<Third, Third, Third>>>>>>
Star(w, x) == LET y == RDiv(RSub(1, x), 2)            \* x at each of the vertices in turn
              IN <<<<w, <<x, y, y>>>>, <<w, <<y, x, y>>>>, <<w, <<y, y, x>>>>>>
Rule2 == Star(Third, RDiv(2, 3))
Root15 == RSqrt(15)
Rule5 == <<<<RDiv(9, 40), <<Third, Third, Third>>>>>>
         \o Star(RDiv(RAdd(155, Root15), 1200), RDiv(RSub(9, RMul(2, Root15)), 21))
         \o Star(RDiv(RSub(155, Root15), 1200), RDiv(RAdd(9, RMul(2, Root15)), 21))
(* integral of l1^i l2^j l3^k over a triangle, divided by its area *)
Monomial(a) == RDiv(2 * Fact(a[1]) * Fact(a[2]) * Fact(a[3]), Fact(a[1] + a[2] + a[3] + 2))
LPow(l, a) == RMul(RPow(l[1], a[1]), RMul(RPow(l[2], a[2]), RPow(l[3], a[3])))
Apply2(rule, f(_)) == RSum([k \in 1..Len(rule) |-> RMul(rule[k][1], f(rule[k][2]))])
ExactFor(rule, degree, eps) ==
  \A n \in 0..degree : \A k \in 1..Len(Multi(n)) :
    LET a == Multi(n)[k] f(l) == LPow(l, a)
    IN RLe(RAbs(RSub(Apply2(rule, f), Monomial(a))), eps)
=============================================================================
