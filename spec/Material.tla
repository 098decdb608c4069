------------------------------ MODULE Material ------------------------------
(***************************************************************************)
(* The material laws (C22, C23).  A deformation gradient is a 2x2 matrix   *)
(* given as a pair of rows.                                                *)
(***************************************************************************)
EXTENDS Num

Det(F) == RSub(RMul(F[1][1], F[2][2]), RMul(F[1][2], F[2][1]))
NormSq(F) == RAdd(RAdd(Sq(F[1][1]), Sq(F[1][2])), RAdd(Sq(F[2][1]), Sq(F[2][2])))
MT(F) == <<<<F[1][1], F[2][1]>>, <<F[1][2], F[2][2]>>>>
MMul(A, B) == [i \in 1..2 |-> [j \in 1..2 |-> RAdd(RMul(A[i][1], B[1][j]), RMul(A[i][2], B[2][j]))]]
MAdd(A, B) == [i \in 1..2 |-> [j \in 1..2 |-> RAdd(A[i][j], B[i][j])]]
MSub(A, B) == [i \in 1..2 |-> [j \in 1..2 |-> RSub(A[i][j], B[i][j])]]
MScale(s, A) == [i \in 1..2 |-> [j \in 1..2 |-> RMul(s, A[i][j])]]
MDot(A, B) == RSum([k \in 1..4 |-> LET i == ((k - 1) \div 2) + 1 j == ((k - 1) % 2) + 1
                                   IN RMul(A[i][j], B[i][j])])
Cof(F) == <<<<F[2][2], RNeg(F[2][1])>>, <<RNeg(F[1][2]), F[1][1]>>>>     \* derivative of Det
Inv(F) == MScale(RRound(RDiv(1, Det(F))), MT(Cof(F)))
Ident == <<<<1, 0>>, <<0, 1>>>>
MRound(A) == [i \in 1..2 |-> [j \in 1..2 |-> RRound(A[i][j])]]

Entropy == 10
Transfer == Half                      \* heat transfer coefficient
Conductivity == Ident
Shear == Half                         \* martensite variants: shears by +- Shear

(* austenite: compressible Neo-Hooke *)
Austenite(F) ==
  LET J == Det(F) IN RSum(<<NormSq(F), -2, RMul(-2, RLog(J)), Sq(RSub(J, 1))>>)
DAustenite(F) ==
  LET J == Det(F)
  IN MAdd(MScale(2, F), MScale(RRound(RSub(RMul(2, RSub(J, 1)), RDiv(2, J))), Cof(F)))
(* martensite: distortion like that of the shears, no change of volume *)
Distortion(F) == RRound(RSub(RSub(RDiv(NormSq(F), Det(F)), 2), Sq(Shear)))
Volume(J) == RRound(RSub(RAdd(Sq(J), RDiv(1, Sq(J))), 2))
Martensite(F) == RAdd(Sq(Distortion(F)), Sq(Volume(Det(F))))
DMartensite(F) ==
  LET J == Det(F)
      dd == MRound(MSub(MScale(RDiv(2, J), F), MScale(RDiv(NormSq(F), Sq(J)), Cof(F))))
      dv == RRound(RSub(RMul(2, J), RDiv(2, RPow(J, 3))))
  IN MAdd(MScale(RMul(2, Distortion(F)), dd), MScale(RMul(RMul(2, Volume(J)), dv), Cof(F)))

(* fraction of austenite at temperature t, and what follows from it *)
Decay(t) == RExp(RMul(-5, t))
Fraction(t) == RSub(1, Decay(t))
DFraction(t) == RMul(5, Decay(t))
Weight(t) == RSub(Fraction(t), RMul(t, DFraction(t)))       \* f - t f'
Antiderivative(t) == LET d == Decay(t)                        \* of Weight, zero at zero
                     IN RSum(<<t, RMul(t, d), RMul(RDiv(-2, 5), RSub(1, d))>>)

Total(F, t) == LET f == Fraction(t)
               IN RAdd(RMul(f, Austenite(F)), RMul(RSub(1, f), Martensite(F)))
DCoupling(F, t) == MScale(Fraction(t), MSub(DAustenite(F), DMartensite(F)))
Gap(F) == RSub(Austenite(F), Martensite(F))
InternalNoEntropy(F, t) == RMul(Weight(t), Gap(F))
Internal(F, t) == RAdd(InternalNoEntropy(F, t), RMul(Entropy, t))
AntiInternal(F, t) == RMul(Antiderivative(t), Gap(F))

StrainRate(P, F) == LET D == MSub(F, P) IN MAdd(MMul(MT(D), P), MMul(MT(P), D))
Dissipation(P, F) == RMul(Half, NormSq(StrainRate(P, F)))
DissipationRate(P, F, fps) == RMul(RMul(2, Sq(fps)), Dissipation(P, F))
PulledBack(F) == LET G == Inv(F) IN MScale(Det(F), MMul(MMul(G, Conductivity), MT(G)))

(* second gradient as a pair of 2x2 matrices *)
HyperElastic(H) == LET n == RSqrt(RAdd(NormSq(H[1]), NormSq(H[2]))) IN RMul(n, Sq(n))

(* a magnitude of the terms that enter the potentials, for rounding errors *)
Size(F) == LET J == Det(F) q == RDiv(NormSq(F), J)
           IN RSum(<<NormSq(F), RAbs(RLog(J)), Sq(J), Sq(q), RPow(J, 4), RPow(J, -4)>>)
=============================================================================
