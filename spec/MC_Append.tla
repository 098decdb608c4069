----------------------------- MODULE MC_Append ------------------------------
(* All ways to append edges to a grid of four vertices that has none yet    *)
(* (C15); every behaviour is printed and replayed into the code.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT MaxLen
VARIABLES given, kept
Vertices == 0..3
Init == given = <<>> /\ kept = <<>>
Append1(p, q) == /\ Len(given) < MaxLen
                 /\ given' = Append(given, <<p, q>>)
                 /\ kept' = IF \E i \in 1..Len(kept) : {kept[i][1], kept[i][2]} = {p, q}
                            THEN kept ELSE Append(kept, <<p, q>>)
Next == \E p, q \in Vertices : p # q /\ Append1(p, q)
Spec == Init /\ [][Next]_<<given, kept>>
Undirected(s) == {{s[i][1], s[i][2]} : i \in 1..Len(s)}
KeptOnce == Len(kept) = Cardinality(Undirected(kept))
NothingLost == Undirected(kept) = Undirected(given)
Export == Len(given) = MaxLen => PrintT("CASE " \o ToJson(given))
=============================================================================
