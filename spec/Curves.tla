------------------------------- MODULE Curves -------------------------------
(* The family of curves of a rectangle (C16): horizontal ones from bottom to *)
(* top, then vertical ones from left to right.                               *)
EXTENDS Rat, Integers, Sequences
(* how many there are in one direction, given the number of interior ones    *)
Kinds(interior) == interior + 2
VerticalKinds(h, v) == Kinds(IF v = -1 THEN h ELSE v)     \* -1: not given
(* the k-th of m points of the c-th curve (k and c from 0) *)
CurvePoint(w, h, nh, nv, m, c, k) ==
  IF c < nh THEN <<RDiv(RMul(k, w), m - 1), RDiv(RMul(c, h), nh - 1)>>
  ELSE <<RDiv(RMul(c - nh, w), nv - 1), RDiv(RMul(k, h), m - 1)>>
Family(w, h, nh, nv, m) == [c \in 1..nh + nv |-> [k \in 1..m |-> CurvePoint(w, h, nh, nv, m, c - 1, k - 1)]]
=============================================================================
