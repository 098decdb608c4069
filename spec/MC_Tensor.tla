----------------------------- MODULE MC_Tensor ------------------------------
(* The laws of linear algebra hold for module Tensor, on small integer      *)
(* matrices; and every combination of operation and shapes of the operands   *)
(* is printed for the harness.                                               *)
EXTENDS Tensor, Json, FiniteSets
CONSTANTS N, Dim
VARIABLES phase, a, b
Entries == -N..N
Init == phase = "start" /\ a = <<>> /\ b = <<>>

(* 1. laws, for random 3x3 and all 2x2 matrices *)
Mat(f, n) == [i \in 1..n |-> [j \in 1..n |-> f[(i - 1) * n + j]]]
Pick2 == \E f \in [1..4 -> Entries] : /\ phase' = "two" /\ a' = Mat(f, 2)
                                      /\ b' \in {<<<<1, 2>>, <<-1, 1>>>>, <<<<0, 1>>, <<1, 3>>>>, <<<<2, 0>>, <<1, 0>>>>}
Pick3 == \E f \in [1..3 -> {-1, 0, 2}], g \in [1..3 -> {0, 1}] :
            /\ phase' = "three"
            /\ a' = <<f, <<g[1], 1, f[2]>>, <<f[3], g[2], g[3]>>>>
            /\ b' = <<<<1, f[1], 0>>, g, <<-1, 2, f[3]>>>>
(* 2. shapes *)
D == 1..Dim
Vs == {<<"V", n>> : n \in D}
Ms == {<<"M", n, m>> : n \in D, m \in D}
Ts == {<<"T", n, m, k>> : n \in D, m \in D, k \in D}
Unary == {<<o, v>> : o \in {"neg", "mul", "rmul", "div", "normsqr", "norm", "map", "iter", "numpy", "len", "transpose"}, v \in Vs}
         \cup {<<o, v>> : o \in {"neg", "mul", "rmul", "div", "transpose", "det", "normsqr", "norm", "flatten", "map", "numpy", "inverse"}, v \in Ms}
         \cup {<<"trace", <<"M", n, n>>>> : n \in D}
         \cup {<<o, v>> : o \in {"neg", "normsqr", "norm", "map", "numpy"}, v \in Ts}
         \cup {<<o, <<"B", 2>>>> : o \in {"iter", "parts", "len"}}
Binary == {<<o, v, w>> : o \in {"add", "sub", "eq", "dot", "stack", "extend"}, v \in Vs, w \in Vs}
          \cup {<<o, v, w>> : o \in {"add", "sub", "eq", "matmul", "scalar_product", "stack"}, v \in Ms, w \in Ms}
          \cup {<<"dot", v, w>> : v \in Ms, w \in Vs}
Same3(v, w) == Cardinality({i \in 2..4 : v[i] # w[i]}) <= 1
Binary3 == {<<o, v, w>> : o \in {"add", "sub", "eq"}, v \in Ts, w \in Ts}
Ix(n) == -1..n + 1
Indexed == {<<"get", v, <<i>>>> : i \in -2..Dim + 1, v \in Vs}
           \cup {<<"get", <<"M", n, m>>, <<i, j>>>> : n \in D, m \in D, i \in -2..Dim + 1, j \in -2..Dim + 1}
           \cup {<<"get", <<"B", 2>>, <<i>>>> : i \in -3..4}
           \cup {<<"reshape", v, <<i, j>>>> : v \in {<<"V", n>> : n \in 1..6}, i \in 1..3, j \in 1..3}
Indexed3 == {<<"get", <<"T", n, m, k>>, <<i, j, l>>>> : n \in 1..2, m \in 1..2, k \in 1..2,
              i \in -1..2, j \in -1..2, l \in -1..2}
Slices == UNION {{<<"slice", <<"V", n>>, <<i, j>>>> : i \in 0..n, j \in 0..n} : n \in D}
Ragged == {<<"newM", <<"R", r>>>> : r \in [1..2 -> D] \cup [1..3 -> D]}
          \cup {<<"newT", <<"R3", r>>>> : r \in [1..2 -> [1..2 -> 1..2] \cup [1..1 -> 1..2]]}
(* a few larger operands *)
Large == {<<"det", <<"M", n, n>>>> : n \in 4..5}
         \cup {<<o, <<"M", 7, 4>>>> : o \in {"neg", "mul", "div", "transpose", "flatten", "norm", "normsqr", "numpy"}}
         \cup {<<"trace", <<"M", 6, 6>>>>, <<"flatten", <<"M", 4, 11>>>>}
         \cup {<<o, <<"V", 18>>>> : o \in {"neg", "normsqr", "norm", "iter", "len", "transpose"}}
         \cup {<<o, <<"T", 4, 5, 3>>>> : o \in {"neg", "normsqr", "norm", "numpy"}}
         \cup {<<"reshape", <<"V", 36>>, <<i, 36 \div i>>>> : i \in {1, 2, 3, 4, 9, 12, 36}}
         \cup {<<"get", <<"V", 18>>, <<i>>>> : i \in {-1, 0, 9, 10, 17, 18}}
         \cup {<<"get", <<"M", 7, 11>>, <<i, j>>>> : i \in {-1, 0, 6, 7}, j \in {-1, 0, 10, 11}}
         \cup {<<"slice", <<"V", 18>>, <<i, j>>>> : i \in {0, 6, 12}, j \in {12, 18}}
Large2 == {<<"matmul", <<"M", 5, 6>>, <<"M", n, 4>>>> : n \in 5..7}
          \cup {<<"extend", <<"V", n>>, <<"V", m>>>> : n \in {6, 12}, m \in {6, 12}}
          \cup {<<o, <<"V", 18>>, <<"V", m>>>> : o \in {"add", "sub", "dot", "stack"}, m \in {17, 18, 19}}
          \cup {<<o, <<"M", 6, 5>>, <<"M", n, m>>>> : o \in {"add", "scalar_product", "stack"}, n \in 5..6, m \in 5..6}
          \cup {<<"dot", <<"M", 21, 18>>, <<"V", n>>>> : n \in {18, 21}}
Emit(c) == /\ phase' = "shape" /\ a' = c[1] /\ b' = c
           /\ PrintT("CASE " \o ToJson(c))
Cases == Unary \cup Indexed \cup Indexed3 \cup {c \in Slices : c[3][1] <= c[3][2]} \cup Ragged
Next == /\ phase = "start"
        /\ \/ Pick2 \/ Pick3
           \/ \E c \in Cases \cup Large : Emit(c)
           \/ \E c \in Binary \cup Large2 : Emit(c)
           \/ \E c \in {x \in Binary3 : Same3(x[2], x[3])} : Emit(c)
Spec == Init /\ [][Next]_<<phase, a, b>>

I2 == <<<<1, 0>>, <<0, 1>>>>
Laws(A, B) ==
  /\ REq(Determinant(MatMul(A, B)), RMul(Determinant(A), Determinant(B)))
  /\ Equal2(Transpose(MatMul(A, B)), MatMul(Transpose(B), Transpose(A)))
  /\ REq(Determinant(Transpose(A)), Determinant(A))
  /\ REq(RSum([i \in 1..Len(A) |-> MatMul(A, B)[i][i]]), RSum([i \in 1..Len(A) |-> MatMul(B, A)[i][i]]))
  /\ REq(RDot(Flat2(A), Flat2(B)), RSum([i \in 1..Len(A) |-> MatMul(Transpose(A), B)[i][i]]))
  /\ Equal1(MatVec(MatMul(A, B), B[1]), MatVec(A, MatVec(B, B[1])))
TwoLaws == phase = "two" =>
  /\ Laws(a, b)
  /\ ~REq(Determinant(a), 0) => /\ Equal2(MatMul(a, Inverse2(a)), I2)
                                /\ Equal2(MatMul(Inverse2(a), a), I2)
(* determinant = alternating and one on the identity *)
ThreeLaws == phase = "three" =>
  /\ Laws(a, b)
  /\ REq(Determinant(<<a[2], a[1], a[3]>>), RNeg(Determinant(a)))
  /\ REq(Determinant(<<a[1], a[1], a[3]>>), 0)
  /\ REq(Determinant(<<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>), 1)
=============================================================================
