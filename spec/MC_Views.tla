------------------------------ MODULE MC_Views ------------------------------
(***************************************************************************)
(* All ways to take at most MaxOps steps (successful or not), pictures,      *)
(* files and films of a simulation in any order (C26).  The positions and    *)
(* temperatures of state k are arbitrary numbers.  Every schedule is         *)
(* printed, for replay.                                                      *)
(***************************************************************************)
EXTENDS Views, Json, FiniteSets
CONSTANTS MaxOps, Where
VARIABLES hist, pics, ops, clock
vars == <<hist, pics, ops, clock>>
(* a state: two positions on each axis, two temperatures *)
State(n, k) == LET v(a, b) == ((n * a + k * b + n * n * k) % 7) - 3
               IN [x |-> <<v(3, 5), v(1, 2)>>, y |-> <<v(2, 3), v(5, 1)>>, t |-> <<(n * 5 + k) % 4, (n + 2 * k) % 4>>]
Initial == <<[x |-> <<0, 1>>, y |-> <<0, 1>>, t |-> <<1, 1>>]>>
N == Len(hist)
Now == Scales(All(hist, LAMBDA h : h.x), All(hist, LAMBDA h : h.y), All(hist, LAMBDA h : h.t))
Picture(i) == [state |-> Shown(N, i), index |-> i, n |-> N, at |-> clock, scales |-> Now]
Init == hist \in {Initial \o <<State(1, k)>> : k \in Where} /\ pics = <<>> /\ ops = <<>> /\ clock = 0
Log(o) == /\ Len(ops) < MaxOps /\ ops' = Append(ops, o)
          /\ Len(ops') = MaxOps => PrintT("CASE " \o ToJson(ops'))
Step == /\ Log([op |-> "run", i |-> 1])
        /\ \E k \in Where : hist' = Append(hist, State(N, k))
        /\ clock' = clock + 1 /\ UNCHANGED pics
(* a step that fails leaves no state *)
Fail == \E f \in 1..2 : Log([op |-> "fail", i |-> f]) /\ UNCHANGED <<hist, pics, clock>>
Indices == {-N - 1, -N, -1, 0, N - 1, N}
Plot == \E i \in Indices : /\ Log([op |-> "plot", i |-> i])
                           /\ pics' = IF Shown(N, i) = 0 THEN pics ELSE Append(pics, Picture(i))
                           /\ UNCHANGED <<hist, clock>>
Save == \E i \in {-N, N - 1, N} : /\ Log([op |-> "save", i |-> i])
                                  /\ pics' = IF Shown(N, i) = 0 THEN pics ELSE Append(pics, Picture(i))
                                  /\ UNCHANGED <<hist, clock>>
Film == /\ Log([op |-> "film", i |-> 0])
        /\ pics' = pics \o [k \in 1..N |-> Picture(Frames(N)[k] - 1)]
        /\ UNCHANGED <<hist, clock>>
Next == Step \/ Fail \/ Plot \/ Save \/ Film
Spec == Init /\ [][Next]_vars

(* a picture shows a state that was recorded when it was taken *)
Exists == \A k \in 1..Len(pics) : pics[k].state \in 1..pics[k].n
(* counting from the end *)
FromTheEnd == \A i \in -N..-1 : Shown(N, i) = Shown(N, N + i)
(* pictures taken of the same history have the same scales, whatever they show *)
Common == \A j, k \in 1..Len(pics) : pics[j].at = pics[k].at => pics[j].scales = pics[k].scales
(* scales only widen as the history grows *)
Wider(a, b) == /\ RLe(b.x[1], a.x[1]) /\ RLe(a.x[2], b.x[2]) /\ RLe(b.y[1], a.y[1]) /\ RLe(a.y[2], b.y[2])
               /\ RLe(a.hot, b.hot)
Widen == \A j, k \in 1..Len(pics) : j < k => Wider(pics[j].scales, pics[k].scales)
(* what is shown fits, and nothing could be narrower *)
Fits == \A k \in 1..Len(pics) : LET p == pics[k] h == hist[p.state] IN
  /\ \A i \in 1..2 : RLe(p.scales.x[1], h.x[i]) /\ RLe(h.x[i], p.scales.x[2])
  /\ \A i \in 1..2 : RLe(p.scales.y[1], h.y[i]) /\ RLe(h.y[i], p.scales.y[2])
  /\ \A i \in 1..2 : RLe(0, h.t[i]) /\ RLe(h.t[i], p.scales.hot)
Tight == LET on(S, f(_)) == \E k \in 1..N : \E i \in 1..2 : REq(f(hist[k])[i], S) IN
  /\ on(Now.x[1], LAMBDA h : h.x) /\ on(Now.x[2], LAMBDA h : h.x)
  /\ on(Now.y[1], LAMBDA h : h.y) /\ on(Now.y[2], LAMBDA h : h.y)
  /\ on(Now.hot, LAMBDA h : h.t)
(* looking changes nothing *)
Harmless == [][ops' # ops /\ ops'[Len(ops')].op # "run" => hist' = hist]_vars
=============================================================================
