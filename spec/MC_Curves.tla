----------------------------- MODULE MC_Curves ------------------------------
(***************************************************************************)
(* The family of curves, for all small rectangles and requests (C16): it     *)
(* contains the four sides, lies in the rectangle, neighbouring curves and   *)
(* points are equally far from each other, every horizontal curve crosses    *)
(* every vertical one exactly where it should, and halving all distances     *)
(* keeps every second curve.  Every request is printed, for replay.          *)
(***************************************************************************)
EXTENDS Curves, TLC, Json
CONSTANTS MaxPoints, MaxInterior
VARIABLES w, h, m, ih, iv, ready
Init == w \in 1..3 /\ h \in 1..3 /\ m = 2 /\ ih = 0 /\ iv = -1 /\ ready = FALSE
Next == /\ ~ready /\ ready' = TRUE
        /\ m' \in 2..MaxPoints /\ ih' \in 0..MaxInterior /\ iv' \in -1..MaxInterior
        /\ UNCHANGED <<w, h>>
        /\ PrintT("CASE " \o ToJson([w |-> w, h |-> h, m |-> m', nh |-> ih', nv |-> iv']))
Spec == Init /\ [][Next]_<<w, h, m, ih, iv, ready>>

NH == Kinds(ih)
NV == VerticalKinds(ih, iv)
F == Family(w, h, NH, NV, m)
Same(p, q) == REq(p[1], q[1]) /\ REq(p[2], q[2])
Minus(p, q) == <<RSub(p[1], q[1]), RSub(p[2], q[2])>>
Spans(c, p, q) == Same(c[1], p) /\ Same(c[m], q)
Side(p, q) == [k \in 1..m |-> <<RAdd(RMul(RDiv(k - 1, m - 1), q[1]), RMul(RDiv(m - k, m - 1), p[1])),
                                RAdd(RMul(RDiv(k - 1, m - 1), q[2]), RMul(RDiv(m - k, m - 1), p[2]))>>]
SameCurve(c, d) == \A k \in 1..m : Same(c[k], d[k])
ContainsTheSides == ready =>
  /\ SameCurve(F[1], Side(<<0, 0>>, <<w, 0>>)) /\ SameCurve(F[NH], Side(<<0, h>>, <<w, h>>))
  /\ SameCurve(F[NH + 1], Side(<<0, 0>>, <<0, h>>)) /\ SameCurve(F[NH + NV], Side(<<w, 0>>, <<w, h>>))
Counted == ready => /\ Len(F) = NH + NV /\ NH = ih + 2 /\ (iv = -1 => NV = NH) /\ (iv >= 0 => NV = iv + 2)
                    /\ \A c \in 1..Len(F) : Len(F[c]) = m
Evenly == ready => \A c \in 1..Len(F) :
  /\ \A k \in 2..m - 1 : Same(Minus(F[c][k], F[c][k - 1]), Minus(F[c][k + 1], F[c][k]))
  /\ (c \notin {1, NH, NH + 1, NH + NV}) => \A k \in 1..m :
        Same(Minus(F[c][k], F[c - 1][k]), Minus(F[c + 1][k], F[c][k]))
FromSideToSide == ready => \A c \in 1..Len(F) :
  IF c <= NH THEN REq(F[c][1][1], 0) /\ REq(F[c][m][1], w) /\ \A k \in 1..m : REq(F[c][k][2], F[c][1][2])
  ELSE REq(F[c][1][2], 0) /\ REq(F[c][m][2], h) /\ \A k \in 1..m : REq(F[c][k][1], F[c][1][1])
Inside == ready => \A c \in 1..Len(F) : \A k \in 1..m :
  RLe(0, F[c][k][1]) /\ RLe(F[c][k][1], w) /\ RLe(0, F[c][k][2]) /\ RLe(F[c][k][2], h)
(* doubling the number of gaps keeps the curves there are *)
Nested == ready => LET G == Family(w, h, 2 * NH - 1, 2 * NV - 1, 2 * m - 1) IN
  /\ \A c \in 1..NH : \A k \in 1..m : Same(F[c][k], G[2 * c - 1][2 * k - 1])
  /\ \A c \in 1..NV : \A k \in 1..m : Same(F[NH + c][k], G[2 * NH - 1 + 2 * c - 1][2 * k - 1])
(* mirroring at the diagonal exchanges the kinds *)
Mirrored == ready => LET G == Family(h, w, NV, NH, m) IN
  \A c \in 1..NH : \A k \in 1..m : REq(F[c][k][1], G[NV + c][k][2]) /\ REq(F[c][k][2], G[NV + c][k][1])
=============================================================================
