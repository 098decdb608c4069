------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Linear algebra of vectors, matrices and third-order tensors (C21).       *)
(* A value is a record [kind, data]: kind "S" (number), "I" (length), "V",   *)
(* "M" (sequence of rows), "T" (sequence of matrices), "B" (barycentric      *)
(* coordinates), "E" (truth value).  Apply says what an operation returns,   *)
(* Rejected being the answer to operands that do not fit.                    *)
(***************************************************************************)
EXTENDS Num

S(x) == [kind |-> "S", data |-> x]
V(x) == [kind |-> "V", data |-> x]
M(x) == [kind |-> "M", data |-> x]
T3(x) == [kind |-> "T", data |-> x]
Truth(x) == [kind |-> "E", data |-> x]
Rejected == [kind |-> "rejected", data |-> 0]

Rows(A) == Len(A)
Cols(A) == Len(A[1])
SameShape(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i])
SameShape3(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : SameShape(A[i], B[i])

Map1(f(_), x) == [i \in 1..Len(x) |-> f(x[i])]
Map2(f(_), A) == [i \in 1..Len(A) |-> Map1(f, A[i])]
Map3(f(_), A) == [i \in 1..Len(A) |-> Map2(f, A[i])]
Zip1(f(_, _), x, y) == [i \in 1..Len(x) |-> f(x[i], y[i])]
Zip2(f(_, _), A, B) == [i \in 1..Len(A) |-> Zip1(f, A[i], B[i])]
Zip3(f(_, _), A, B) == [i \in 1..Len(A) |-> Zip2(f, A[i], B[i])]
Flat2(A) == Concat([i \in 1..Len(A) |-> A[i]])
Flat3(A) == Concat([i \in 1..Len(A) |-> Flat2(A[i])])

Column(A, j) == [i \in 1..Rows(A) |-> A[i][j]]
Transpose(A) == [j \in 1..Cols(A) |-> Column(A, j)]
MatMul(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(B) |-> RDot(A[i], Column(B, j))]]
MatVec(A, x) == [i \in 1..Rows(A) |-> RDot(A[i], x)]
(* determinant by expansion along the first row *)
Drop(s, j) == [i \in 1..Len(s) - 1 |-> IF i < j THEN s[i] ELSE s[i + 1]]
Minor(A, j) == [i \in 1..Rows(A) - 1 |-> Drop(A[i + 1], j)]
RECURSIVE Determinant(_)
Determinant(A) ==
  IF Rows(A) = 1 THEN R(A[1][1])
  ELSE RSum([j \in 1..Cols(A) |-> RMul(IF j % 2 = 1 THEN 1 ELSE -1,
                                       RMul(A[1][j], Determinant(Minor(A, j))))])
Inverse2(A) == LET d == Determinant(A)
               IN <<<<RDiv(A[2][2], d), RNeg(RDiv(A[1][2], d))>>, <<RNeg(RDiv(A[2][1], d)), RDiv(A[1][1], d)>>>>
SumSq(s) == RDot(s, s)
Equal1(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : REq(x[i], y[i])
Equal2(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Equal1(A[i], B[i])
Equal3(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Equal2(A[i], B[i])
Affine(x) == RAdd(RMul(2, x), 1)          \* the map used in the scenarios
Within(i, n) == 0 <= i /\ i < n
Slice(x, from, to) == SubSeq(x, from + 1, to)

If(fits, value) == IF fits THEN value ELSE Rejected

(* o: operation; a, b: operands; p: sequence of integer arguments *)
ApplyV(o, a, b, p, s) ==
  LET x == a.data y == b.data n == Len(x)
  IN CASE o = "neg" -> V(Map1(RNeg, x))
       [] o = "add" -> If(Len(y) = n, V(Zip1(RAdd, x, y)))
       [] o = "sub" -> If(Len(y) = n, V(Zip1(RSub, x, y)))
       [] o \in {"mul", "rmul"} -> LET f(z) == RMul(z, s) IN V(Map1(f, x))
       [] o = "div" -> LET f(z) == RDiv(z, s) IN If(~REq(s, 0), V(Map1(f, x)))
       [] o = "eq" -> Truth(Equal1(x, y))
       [] o = "normsqr" -> S(SumSq(x))
       [] o = "norm" -> S(RSqrt(SumSq(x)))
       [] o = "dot" -> If(Len(y) = n, S(RDot(x, y)))
       [] o = "map" -> V(Map1(Affine, x))
       [] o = "stack" -> If(Len(y) = n, M(<<x, y>>))
       [] o \in {"iter", "numpy"} -> V(x)
       [] o = "len" -> S(n)
       [] o = "extend" -> V(x \o y)
       [] o = "transpose" -> M(<<x>>)
       [] o = "reshape" -> If(p[1] * p[2] = n, M([i \in 1..p[1] |-> [j \in 1..p[2] |-> x[(i - 1) * p[2] + j]]]))
       [] o = "get" -> IF Within(p[1], n) THEN S(x[p[1] + 1]) ELSE Rejected
       [] o = "slice" -> V(Slice(x, p[1], p[2]))
ApplyM(o, a, b, p, s) ==
  LET A == a.data B == b.data
  IN CASE o = "neg" -> M(Map2(RNeg, A))
       [] o = "add" -> If(SameShape(A, B), M(Zip2(RAdd, A, B)))
       [] o = "sub" -> If(SameShape(A, B), M(Zip2(RSub, A, B)))
       [] o \in {"mul", "rmul"} -> LET f(z) == RMul(z, s) IN M(Map2(f, A))
       [] o = "div" -> LET f(z) == RDiv(z, s) IN If(~REq(s, 0), M(Map2(f, A)))
       [] o = "eq" -> Truth(Equal2(A, B))
       [] o = "matmul" -> If(Cols(A) = Rows(B), M(MatMul(A, B)))
       [] o = "transpose" -> M(Transpose(A))
       [] o = "trace" -> S(RSum([i \in 1..Rows(A) |-> A[i][i]]))              \* square only
       [] o = "det" -> If(Rows(A) = Cols(A), S(Determinant(A)))
       [] o = "normsqr" -> S(SumSq(Flat2(A)))
       [] o = "norm" -> S(RSqrt(SumSq(Flat2(A))))
       [] o = "scalar_product" -> If(SameShape(A, B), S(RDot(Flat2(A), Flat2(B))))
       [] o = "flatten" -> V(Flat2(A))
       [] o = "dot" -> If(Cols(A) = Len(B), V(MatVec(A, B)))
       [] o = "map" -> M(Map2(Affine, A))
       [] o = "numpy" -> M(A)
       [] o = "stack" -> If(SameShape(A, B), T3(<<A, B>>))
       [] o = "get" -> IF Within(p[1], Rows(A)) /\ Within(p[2], Cols(A)) THEN S(A[p[1] + 1][p[2] + 1]) ELSE Rejected
       [] o = "inverse" -> IF Rows(A) = 2 /\ Cols(A) = 2 THEN If(~REq(Determinant(A), 0), M(Inverse2(A))) ELSE Rejected
ApplyT(o, a, b, p, s) ==
  LET A == a.data B == b.data
  IN CASE o = "neg" -> T3(Map3(RNeg, A))
       [] o = "add" -> If(SameShape3(A, B), T3(Zip3(RAdd, A, B)))
       [] o = "sub" -> If(SameShape3(A, B), T3(Zip3(RSub, A, B)))
       [] o = "eq" -> Truth(Equal3(A, B))
       [] o = "normsqr" -> S(SumSq(Flat3(A)))
       [] o = "norm" -> S(RSqrt(SumSq(Flat3(A))))
       [] o = "map" -> T3(Map3(Affine, A))
       [] o = "numpy" -> T3(A)
       [] o = "get" -> IF Within(p[1], Len(A)) /\ Within(p[2], Rows(A[1])) /\ Within(p[3], Cols(A[1]))
                       THEN S(A[p[1] + 1][p[2] + 1][p[3] + 1]) ELSE Rejected
(* barycentric coordinates (l1, l2, 1 - l1 - l2) *)
ApplyB(o, a, b, p, s) ==
  LET l == <<R(a.data[1]), R(a.data[2]), RSub(RSub(1, a.data[1]), a.data[2])>>
  IN CASE o \in {"iter", "parts"} -> V(l)
       [] o = "len" -> S(3)
       [] o = "get" -> IF Within(p[1], 3) THEN S(l[p[1] + 1]) ELSE Rejected
(* building from nested lists: p = lengths of the rows (per matrix) *)
Homogeneous(A) == \A i \in 1..Len(A) : Len(A[i]) = Len(A[1])
ApplyNew(o, a, b, p, s) ==
  CASE o = "newM" -> If(Homogeneous(a.data), M(a.data))
    [] o = "newT" -> If(Homogeneous(a.data) /\ \A i \in 1..Len(a.data) : \A j \in 1..Len(a.data[i]) :
                            Len(a.data[i][j]) = Len(a.data[1][1]), T3(a.data))
Apply(o, a, b, p, s) ==
  CASE o \in {"newM", "newT"} -> ApplyNew(o, a, b, p, s)
    [] a.kind = "V" -> ApplyV(o, a, b, p, s)
    [] a.kind = "M" -> ApplyM(o, a, b, p, s)
    [] a.kind = "T" -> ApplyT(o, a, b, p, s)
    [] a.kind = "B" -> ApplyB(o, a, b, p, s)
=============================================================================
