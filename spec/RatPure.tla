-------------------------------- MODULE RatPure --------------------------------
(***************************************************************************)
(* Exact rational numbers.                                                 *)
(*                                                                         *)
(* The definitions below give the meaning of every operator on reduced     *)
(* pairs <<numerator, denominator>>, denominator > 0 (<<0,0>> is "not a    *)
(* number").  TLC's integers have 32 bits, so when TLC runs it evaluates   *)
(* the operators by java/Rat.java instead (arbitrary precision), a Java    *)
(* class of the same name being TLC's mechanism for this.  MC_Rat checks   *)
(* the Java implementation against the definitions (module RatPure, a      *)
(* verbatim copy that is not overridden) and against the field axioms.     *)
(*                                                                         *)
(* Recorded traces hold reals as decimal strings ("0.1" etc.), which R     *)
(* reads exactly; a string that is no number ("nan", "err") yields NaN,    *)
(* and every comparison with NaN is FALSE.                                 *)
(*                                                                         *)
(* RSqrt, RLog, RExp and RRound are correct to better than 2^-200, i.e.    *)
(* they may be thought of as exact; below they are specified, not          *)
(* computed (MC_Rat checks the Java code against functional equations).    *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

RECURSIVE RGcd(_, _)
RGcd(a, b) == IF b = 0 THEN a ELSE RGcd(b, a % b)
LOCAL Abs(a) == IF a < 0 THEN -a ELSE a

LOCAL NaN == <<0, 0>>
LOCAL Mk(n, d) ==
  IF d = 0 THEN NaN
  ELSE LET g == RGcd(Abs(n), Abs(d))
           s == IF d < 0 THEN -1 ELSE 1
       IN <<s * (n \div g), s * (d \div g)>>

R(x) == x                                      \* pairs only: TLC cannot tell pairs from integers
RIsNum(x) == R(x)[2] # 0
RAdd(a, b) == IF ~RIsNum(a) \/ ~RIsNum(b) THEN NaN
              ELSE LET x == R(a) y == R(b) IN Mk(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
RNeg(a) == LET x == R(a) IN <<-x[1], x[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF ~RIsNum(a) \/ ~RIsNum(b) THEN NaN
              ELSE LET x == R(a) y == R(b) IN Mk(x[1] * y[1], x[2] * y[2])
RDiv(a, b) == IF ~RIsNum(a) \/ ~RIsNum(b) THEN NaN
              ELSE LET x == R(a) y == R(b) IN Mk(x[1] * y[2], x[2] * y[1])
RAbs(a) == LET x == R(a) IN <<Abs(x[1]), x[2]>>
RECURSIVE RPow(_, _)                           \* integer exponents
RPow(a, e) == IF e = 0 THEN <<1, 1>>
              ELSE IF e < 0 THEN RDiv(<<1, 1>>, RPow(a, -e))
              ELSE RMul(a, RPow(a, e - 1))
RLt(a, b) == /\ RIsNum(a) /\ RIsNum(b)
             /\ LET x == R(a) y == R(b) IN x[1] * y[2] < y[1] * x[2]
RLe(a, b) == /\ RIsNum(a) /\ RIsNum(b)
             /\ LET x == R(a) y == R(b) IN x[1] * y[2] <= y[1] * x[2]
REq(a, b) == RLe(a, b) /\ RLe(b, a)
RFloor(a) == LET x == R(a) IN x[1] \div x[2]
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN <<0, 1>> ELSE RAdd(Head(s), RSum(Tail(s)))
RDot(s, t) == RSum([i \in 1..Len(s) |-> RMul(s[i], t[i])])
RECURSIVE RMaxAbs(_)
RMaxAbs(s) == IF s = <<>> THEN <<0, 1>>
              ELSE LET m == RMaxAbs(Tail(s)) IN IF RLt(m, RAbs(Head(s))) THEN RAbs(Head(s)) ELSE m

RRound(a) == R(a)
RSqrt(a) == CHOOSE x \in {a} : TRUE            \* the nonnegative x with RMul(x, x) = a
RLog(a) == CHOOSE x \in {a} : TRUE             \* the natural logarithm
RExp(a) == CHOOSE x \in {a} : TRUE             \* the exponential function
RStr(a) == a                                   \* for error messages only
=============================================================================
