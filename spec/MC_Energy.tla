----------------------------- MODULE MC_Energy ------------------------------
(* Properties of the functionals of module Energy (C06 - C08), over small   *)
(* deformations and temperatures of a unit square of two triangles.         *)
EXTENDS Energy
CONSTANTS Moves, Temps
VARIABLES u, v, th, fps, ready

Mesh == [points |-> <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>>>, triangles |-> <<<<0, 1, 3>>, <<0, 3, 2>>>>]
(* the same square with one refinement *)
Fine == [points |-> <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<Half, 0>>, <<1, Half>>, <<Half, Half>>, <<0, Half>>, <<Half, 1>>>>,
         triangles |-> <<<<0, 4, 6>>, <<4, 1, 5>>, <<4, 5, 6>>, <<6, 5, 3>>, <<0, 6, 7>>, <<7, 6, 8>>, <<6, 3, 8>>, <<7, 8, 2>>>>]
(* displacement number n, in tenths *)
Shift(n, k) == <<RDiv(((n * 7 + k * 5 + n * k) % 5) - 2, 10), RDiv(((n * 3 + k * 11 + n * n * k) % 5) - 2, 10)>>
Deform(n) == TLCEval([k \in 1..4 |-> LET s == Shift(n, k) p == Mesh.points[k]
                                     IN IF n = 0 THEN p ELSE <<RAdd(p[1], s[1]), RAdd(p[2], s[2])>>])
Heat(n, m) == TLCEval([k \in 1..m |-> IF n < 2 THEN RDiv(n, 2) ELSE RDiv((n * 5 + k * 3) % 7, 4)])

(* two steps so that TLC's workers share the states *)
Init == u = 0 /\ v = 0 /\ th = 0 /\ fps = 0 /\ ready = FALSE
Next == \/ /\ fps = 0 /\ fps' = 1
           /\ u' \in 0..Moves /\ v' \in 0..Moves /\ UNCHANGED <<th, ready>>
        \/ /\ fps = 1 /\ ~ready /\ ready' = TRUE
           /\ th' \in 0..Temps /\ fps' \in {1, 7} /\ UNCHANGED <<u, v>>
Spec == Init /\ [][Next]_<<u, v, th, fps, ready>>

Eps == RPow(2, -120)
Approx(x, y) == RLe(RAbs(RSub(x, y)), RMul(Eps, RAdd(1, RAbs(y))))
Turn(p) == <<RSub(RMul(RDiv(3, 5), p[1]), RMul(RDiv(4, 5), p[2])), RAdd(RMul(RDiv(4, 5), p[1]), RMul(RDiv(3, 5), p[2]))>>
Turned(y) == [k \in 1..4 |-> Turn(y[k])]

(* the dissipation vanishes when nothing moves and is never negative *)
Rest == ready => /\ Approx(PlainMech(Mesh, Deform(u), Heat(th, 4), Deform(u), fps), PlainMech(Mesh, Deform(v), Heat(th, 4), Deform(u), 0))
                 /\ RLe(PlainMech(Mesh, Deform(u), Heat(th, 4), Deform(v), 0), RAdd(Eps, PlainMech(Mesh, Deform(u), Heat(th, 4), Deform(v), fps)))
(* superposed rotations do not matter *)
Frame == ready => /\ Approx(PlainMech(Mesh, Turned(Deform(u)), Heat(th, 4), Turned(Deform(v)), fps), PlainMech(Mesh, Deform(u), Heat(th, 4), Deform(v), fps))
                  /\ Approx(PlainMech(Mesh, Deform(u), Heat(th, 4), Turned(Deform(v)), 0), PlainMech(Mesh, Deform(u), Heat(th, 4), Deform(v), 0))
(* at rest at the temperature of the surroundings nothing happens: the     *)
(* functional is stationary there                                           *)
Bump(theta, k, h) == [theta EXCEPT ![k] = RAdd(@, h)]
Outer == <<<<0, 1>>, <<1, 3>>, <<3, 2>>, <<2, 0>>>>
Still == (ready /\ th < 2) =>
  LET t == Heat(th, 4)
      J(theta) == RAdd(PlainHeat(Mesh, Deform(u), Deform(u), t, theta, fps), Exchange(Mesh, Outer, EdgeMid, theta, t[1]))
      h == RPow(2, -40)
      slope(k) == RDiv(RSub(J(Bump(t, k, h)), J(t)), h)
  IN \A k \in 1..4 : RLe(RAbs(slope(k)), RPow(2, -30))
(* an affine deformation is the same for both schemes *)
Affine(n) == LET s == Shift(n, 1) r == Shift(n, 2)
             IN IF n = 0 THEN <<<<1, 0>>, <<0, 1>>>>
                ELSE <<<<RAdd(1, s[1]), s[2]>>, <<r[1], RAdd(1, r[2])>>>>
AffinePlain(n) == TLCEval([k \in 1..4 |-> LET A == Affine(n) p == Mesh.points[k] IN <<RDot(A[1], p), RDot(A[2], p)>>])
AffineC1(n) == TLCEval([k \in 1..4 |-> LET A == Affine(n) p == Mesh.points[k]
                 IN [i \in 1..2 |-> <<RDot(A[i], p), A[i][1], A[i][2], 0, 0, 0>>]])
Schemes == (ready /\ th < 2 /\ fps = 7) =>
  /\ Approx(RegMech(Mesh, Fine, AffineC1(u), Heat(th, 9), AffineC1(v), fps, 3),
            PlainMech(Mesh, AffinePlain(u), Heat(th, 4), AffinePlain(v), fps))
  /\ Approx(RegHeat(Mesh, Fine, AffineC1(u), AffineC1(v), Heat(0, 9), Heat(th, 9), fps),
            PlainHeat(Mesh, AffinePlain(u), AffinePlain(v), Heat(0, 4), Heat(th, 4), fps))
(* the work of a constant traction is its product with the mean displacement *)
Pull == ready => LET g == [k \in 1..4 |-> <<2, -1>>] y == Deform(u) IN
  /\ Approx(Work(Mesh, <<<<0, 1>>>>, EdgeMid, g, y), RSub(RAdd(y[1][1], y[2][1]), RDiv(RAdd(y[1][2], y[2][2]), 2)))
  /\ Approx(Work(Mesh, Outer, EdgeMid, g, y), Work(Mesh, Outer, EdgeSimpson, g, y))
=============================================================================
