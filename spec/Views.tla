------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* Looking at a simulation (C26).  A history is a sequence of states; what   *)
(* matters for the scales of its pictures are lists xs, ys of positions and  *)
(* a list of temperatures of each state.                                    *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, TLC
LOCAL INSTANCE SequencesExt
RECURSIVE LargestFrom(_, _, _)
LargestFrom(s, k, m) == IF k > Len(s) THEN m ELSE LargestFrom(s, k + 1, IF RLe(m, s[k]) THEN s[k] ELSE m)
Largest(s) == LargestFrom(s, 2, s[1])
Smallest(s) == RNeg(Largest([k \in 1..Len(s) |-> RNeg(s[k])]))
All(hist, f(_)) == FoldLeft(LAMBDA a, h : a \o f(h), <<>>, hist)

(* which state picture number i of a history of n states shows; 0: no picture *)
Shown(n, i) == IF i < -n \/ i >= n THEN 0 ELSE IF i < 0 THEN n + i + 1 ELSE i + 1
FileName(n, i) == "step_" \o ToString(Shown(n, i) - 1) \o ".png"
Frames(n) == [k \in 1..n |-> k]
(* the scales of all pictures of a history *)
Scales(xs, ys, temps) == [x |-> <<Smallest(xs), Largest(xs)>>, y |-> <<Smallest(ys), Largest(ys)>>,
                          hot |-> Largest(<<0>> \o temps)]
=============================================================================
