-------------------------------- MODULE Num --------------------------------
(* Infix notation for rationals and the comparisons "up to rounding".       *)
EXTENDS Rat, Integers, Sequences, TLC

a \oplus b == RAdd(a, b)
a \ominus b == RSub(a, b)
a \otimes b == RMul(a, b)
a \oslash b == RDiv(a, b)
a \prec b == RLt(a, b)
a \preceq b == RLe(a, b)
Half == RDiv(1, 2)
Sq(a) == RMul(a, a)
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b

(* by halves: long sequences are no deep recursions *)
RECURSIVE RMaxIn(_, _, _)
RMaxIn(s, i, j) == IF i = j THEN R(s[i]) ELSE LET m == (i + j) \div 2 IN RMax(RMaxIn(s, i, m), RMaxIn(s, m + 1, j))
RMaxSeq(s) == LET t == TLCEval(s) IN RMaxIn(t, 1, Len(t))
RECURSIVE RMinIn(_, _, _)
RMinIn(s, i, j) == IF i = j THEN R(s[i]) ELSE LET m == (i + j) \div 2 IN RMin(RMinIn(s, i, m), RMinIn(s, m + 1, j))
RMinSeq(s) == LET t == TLCEval(s) IN RMinIn(t, 1, Len(t))

(* The implementation computes with floating point numbers: recorded reals
   are compared with a relative tolerance of 1e-9 of the magnitude of the
   quantities that entered.                                                *)
Tol == RDiv(1, 1000000000)
CloseTo(a, b, mag) == RLe(RAbs(RSub(a, b)), RMul(Tol, RAdd(1, RAbs(mag))))
Close(a, b) == CloseTo(a, b, b)
(* relative to mag alone: for quantities that may be tiny *)
CloseBy(a, b, mag) == RLe(RAbs(RSub(a, b)), RMul(Tol, RAbs(mag)))
CloseSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Close(s[i], t[i])
Same(a, b) == REq(a, b)
SameSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : REq(s[i], t[i])

Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
=============================================================================
