---------------------------- MODULE MC_Material -----------------------------
(* The properties of the material laws, on a lattice of deformation         *)
(* gradients and temperatures (C22, C23).                                   *)
EXTENDS Material, FiniteSets
CONSTANTS N, Unit, Temps
VARIABLES f, t, ready
Entries == -N..N
Init == /\ f \in {<<k, l, 0, 0>> : k \in Entries, l \in Entries}
        /\ t = 0 /\ ready = FALSE
Next == /\ ~ready /\ ready' = TRUE
        /\ \E k \in Entries, l \in Entries : f' = <<f[1], f[2], k, l>>
        /\ f'[1] * f'[4] - f'[2] * f'[3] > 0
        /\ t' \in 0..Temps
Spec == Init /\ [][Next]_<<f, t, ready>>

F == LET e(k) == RDiv(f[k], Unit) IN <<<<e(1), e(2)>>, <<e(3), e(4)>>>>
Th == RDiv(t, 8)
Eps == RPow(2, -150)
ApproxEq(x, y) == RLe(RAbs(RSub(x, y)), RMul(Eps, RAdd(1, RAbs(y))))
MApprox(A, B) == \A i \in 1..2 : \A j \in 1..2 : ApproxEq(A[i][j], B[i][j])
Rotations == {<<<<c, RNeg(s)>>, <<s, c>>>> : <<c, s>> \in
   {<<R(1), R(0)>>, <<R(0), R(1)>>, <<R(-1), R(0)>>, <<RDiv(3, 5), RDiv(4, 5)>>,
    <<RDiv(-5, 13), RDiv(12, 13)>>, <<RDiv(8, 17), RDiv(-15, 17)>>}}
IsRotation(A) == MApprox(MMul(MT(A), A), Ident) /\ ApproxEq(Det(A), 1)
(* det one and the norm of a shear by 1/2: the shears up to rotations *)
IsVariant(A) == ApproxEq(Det(A), 1) /\ ApproxEq(NormSq(A), RDiv(9, 4))

Wells == ready => 
  /\ RLe(RNeg(Eps), Austenite(F)) /\ RLe(0, Martensite(F))
  /\ ApproxEq(Austenite(F), 0) <=> IsRotation(F)
  /\ ApproxEq(Martensite(F), 0) <=> IsVariant(F)
FrameIndifferent == ready => 
  \A Q \in Rotations : /\ ApproxEq(Austenite(MMul(Q, F)), Austenite(F))
                       /\ ApproxEq(Martensite(MMul(Q, F)), Martensite(F))
                       /\ ApproxEq(Dissipation(MMul(Q, F), MMul(Q, MAdd(F, Ident))), Dissipation(F, MAdd(F, Ident)))
                       /\ MApprox(PulledBack(MMul(Q, F)), PulledBack(F))
(* the derivatives are the limits of difference quotients: the error of the
   central quotient shrinks with the square of the step                     *)
Step == RPow(2, -40)
Bump(i, j, h) == [k \in 1..2 |-> [l \in 1..2 |-> IF k = i /\ l = j THEN RAdd(F[k][l], h) ELSE R(F[k][l])]]
Quotient(W(_), i, j) == RDiv(RSub(W(Bump(i, j, Step)), W(Bump(i, j, RNeg(Step)))), RMul(2, Step))
Loose(x, y) == RLe(RAbs(RSub(x, y)), RMul(RPow(2, -50), RAdd(1, RAdd(RAbs(y), Sq(Size(F))))))
Derivatives == ready => 
  \A i \in 1..2 : \A j \in 1..2 : /\ Loose(DAustenite(F)[i][j], Quotient(Austenite, i, j))
                                  /\ Loose(DMartensite(F)[i][j], Quotient(Martensite, i, j))
QuotientT(W(_)) == RDiv(RSub(W(RAdd(Th, Step)), W(RSub(Th, Step))), RMul(2, Step))
Temperature == ready =>
  /\ ApproxEq(Fraction(0), 0) /\ RLt(Fraction(Th), 1)
  /\ t > 0 => RLt(0, Fraction(Th))
  /\ RLt(Fraction(Th), Fraction(RAdd(Th, RDiv(1, 8))))
  /\ ApproxEq(Weight(0), 0) /\ RLt(Weight(Th), Weight(RAdd(Th, RDiv(1, 8))))
  /\ RLe(Weight(Th), 1)
  /\ Loose(DFraction(Th), QuotientT(Fraction))
  /\ ApproxEq(Antiderivative(0), 0) /\ Loose(Weight(Th), QuotientT(Antiderivative))
  /\ RLt(Internal(Ident, Th), Internal(Ident, RAdd(Th, RDiv(1, 8))))
Conduction == ready => 
  LET A == PulledBack(F)
  IN /\ ApproxEq(A[1][2], A[2][1]) /\ RLt(0, A[1][1]) /\ RLt(0, Det(A))
     /\ MApprox(MMul(MMul(F, A), MT(F)), MScale(Det(F), Conductivity))
Dissipates == ready =>  LET G == MAdd(F, <<<<Th, 0>>, <<Half, 0>>>>)
              IN RLe(0, Dissipation(F, G)) /\ ApproxEq(Dissipation(F, F), 0)
=============================================================================
