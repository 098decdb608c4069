------------------------------- MODULE MC_Rat -------------------------------
(* The arithmetic TLC computes with (java/Rat.java) agrees with its         *)
(* definition, and the approximated functions satisfy their equations.      *)
EXTENDS Rat, Integers, Sequences, TLC
P == INSTANCE RatPure
CONSTANTS N, D
VARIABLES a, b
Init == a \in (-N..N) \X (1..D) /\ b \in (-N..N) \X (1..D)
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>

J(x) == RDiv(x[1], x[2])                    \* as Java number
Is(x, p) == IF p[2] = 0 THEN ~RIsNum(x) ELSE REq(x, RDiv(p[1], p[2]))
Zero == a[1] = 0
Field ==
  /\ Is(RAdd(J(a), J(b)), P!RAdd(a, b))
  /\ Is(RSub(J(a), J(b)), P!RSub(a, b))
  /\ Is(RMul(J(a), J(b)), P!RMul(a, b))
  /\ Is(RDiv(J(b), J(a)), P!RDiv(b, a))
  /\ Is(RNeg(J(a)), P!RNeg(a))
  /\ Is(RAbs(J(a)), P!RAbs(a))
  /\ \A e \in -2..3 : Is(RPow(J(a), e), P!RPow(a, e))
  /\ RLt(J(a), J(b)) = P!RLt(a, b)
  /\ RLe(J(a), J(b)) = P!RLe(a, b)
  /\ REq(J(a), J(b)) = P!REq(a, b)
  /\ RFloor(J(a)) = P!RFloor(a)
  /\ Is(RSum(<<J(a), J(b), J(a)>>), P!RSum(<<a, b, a>>))
  /\ Is(RDot(<<J(a), J(b)>>, <<J(b), J(b)>>), P!RDot(<<a, b>>, <<b, b>>))
  /\ Is(RMaxAbs(<<J(a), J(b)>>), P!RMaxAbs(<<a, b>>))
Eps == RPow(2, -190)
Near(x, y) == RLe(RAbs(RSub(x, y)), RMul(Eps, RAdd(1, RAbs(y))))
Functions ==
  /\ Near(RExp(RAdd(J(a), J(b))), RMul(RExp(J(a)), RExp(J(b))))
  /\ RLt(0, RExp(J(a)))
  /\ RLe(RAdd(1, J(a)), RAdd(RExp(J(a)), Eps))                   \* tangent at 0
  /\ a[1] > 0 => /\ Near(RExp(RLog(J(a))), J(a))
                 /\ Near(RMul(RSqrt(J(a)), RSqrt(J(a))), J(a))
                 /\ RLe(RLog(J(a)), RAdd(RSub(J(a), 1), Eps))    \* tangent at 1
  /\ a[1] < 0 => ~RIsNum(RLog(J(a))) /\ ~RIsNum(RSqrt(J(a)))
  /\ Near(RRound(RDiv(J(a), 7)), RDiv(J(a), 7))
Strings ==
  /\ REq("0.1", RDiv(1, 10)) /\ REq("-2.5e-3", RDiv(-1, 400)) /\ REq("1E+2", 100) /\ REq("1/3", RDiv(1, 3))
  /\ ~RIsNum("nan") /\ ~RIsNum("inf") /\ ~REq("nan", "nan") /\ ~RLe("nan", 1) /\ ~RIsNum(RAdd("nan", 1))
=============================================================================
