---------------------------- MODULE TraceTensor -----------------------------
(* Recorded tensor operations against module Tensor (C21).                  *)
EXTENDS TraceRun, Tensor

SumAbs(s) == RSum([i \in 1..Len(s) |-> RAbs(s[i])])
RECURSIVE Flat(_, _)
Flat(kind, x) == CASE kind \in {"V", "B"} -> x [] kind = "M" -> Flat2(x) [] kind = "T" -> Flat3(x)
                   [] OTHER -> <<>>
(* magnitude of the sums and products that occur in an operation: the
   tolerance is relative to it, however large or small the entries are     *)
Mag(e) == LET ma == IF e.a.kind \in {"V", "M", "T", "B"} /\ e.outcome = "ok" /\ e.op \notin {"newM", "newT"} THEN SumAbs(Flat(e.a.kind, e.a.data)) ELSE R(1)
              mb == IF e.b.kind \in {"V", "M", "T"} THEN SumAbs(Flat(e.b.kind, e.b.data)) ELSE R(0)
          IN CASE e.op = "det" -> RPow(ma, Len(e.a.data))
               [] e.op = "inverse" -> RDiv(RPow(ma, 3), Sq(Determinant(e.a.data)))
               [] e.op \in {"mul", "rmul"} -> RMul(ma, RAbs(e.s))
               [] e.op = "div" /\ ~REq(e.s, 0) -> RDiv(ma, RAbs(e.s))
               [] e.op = "normsqr" -> Sq(ma)
               [] e.op \in {"dot", "matmul", "scalar_product"} -> RMul(ma, mb)
               [] e.op = "map" \/ e.a.kind = "B" -> RAdd(1, RMul(2, ma))
               [] OTHER -> RAdd(ma, mb)
Close1(x, y, m) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : CloseBy(x[i], y[i], m)
Close2(A, B, m) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Close1(A[i], B[i], m)
Close3(A, B, m) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Close2(A[i], B[i], m)
Agrees(want, got, m) ==
  /\ want.kind = got.kind
  /\ CASE want.kind = "S" -> CloseBy(got.data, want.data, m)
       [] want.kind = "V" -> Close1(got.data, want.data, m)
       [] want.kind = "M" -> Close2(got.data, want.data, m)
       [] want.kind = "T" -> Close3(got.data, want.data, m)
       [] want.kind = "E" -> got.data = want.data
OpConds(e) ==
  LET want == TLCEval(Apply(e.op, e.a, e.b, e.p, e.s))
  IN <<<<"operands that do not fit are rejected: " \o e.op, want.kind = "rejected" => e.outcome = "error">>,
       <<"operands that fit give a result: " \o e.op, want.kind # "rejected" => e.outcome = "ok">>,
       <<"result of " \o e.op, (want.kind # "rejected" /\ e.outcome = "ok") => Agrees(want, e.result, Mag(e))>>,
       <<"operands are not altered by " \o e.op, e.after = e.before>>>>

MyStart(tr) == "-"
MyConds(tr, s, e) == IF e.ev = "op" THEN OpConds(e) ELSE <<<<"failed: " \o ToString(e), FALSE>>>>
MyAfter(tr, s, e) == s
=============================================================================
