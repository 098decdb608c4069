---------------------------- MODULE TraceDrawing ----------------------------
(***************************************************************************)
(* Recorded pictures of grids and domains against module Drawing (C28).      *)
(* tr.things[t] has the kind, and the points and edges of a grid or the size *)
(* of a domain.  After every operation e.canvases shows what every canvas    *)
(* contains: dots, lines, rectangles, limits, aspect.  A thing of kind "own"  *)
(* is a line of the caller, on an axis of his own.                          *)
(***************************************************************************)
EXTENDS TraceRun, Drawing

Thing(tr, t) == tr.things[t]
IsGrid(tr, t) == Thing(tr, t).kind = "grid"
Coordinates(tr, t, i) == TLCEval([k \in 1..Len(Thing(tr, t).points) |-> Thing(tr, t).points[k][i]])
(* lower left and upper right corner *)
Extent(tr, t) == IF IsGrid(tr, t) THEN <<<<RMinSeq(Coordinates(tr, t, 1)), RMinSeq(Coordinates(tr, t, 2))>>,
                                         <<RMaxSeq(Coordinates(tr, t, 1)), RMaxSeq(Coordinates(tr, t, 2))>>>>
                 ELSE <<<<R(0), R(0)>>, <<R(Thing(tr, t).w), R(Thing(tr, t).h)>>>>
After1(cs, e) == IF e.op = "turn" THEN cs ELSE IF e.op \in {"new", "given"} THEN Append(cs, {e.t}) ELSE [cs EXCEPT ![e.on] = @ \cup {e.t}]
SameP(tr, p, q) == RLe(RAbs(RSub(p[1], q[1])), RMul(tr.size, Tol)) /\ RLe(RAbs(RSub(p[2], q[2])), RMul(tr.size, Tol))
SameLine(tr, a, b) == (SameP(tr, a[1], b[1]) /\ SameP(tr, a[2], b[2])) \/ (SameP(tr, a[1], b[2]) /\ SameP(tr, a[2], b[1]))
(* the same up to order and repetition (and rounding) *)
SameSets(A, B, same(_, _)) ==
  LET X == TLCEval(A)
      Y == TLCEval(B)
  IN /\ \A a \in TLCEval(X \ Y) : \E b \in Y : same(a, b)
     /\ \A b \in TLCEval(Y \ X) : \E a \in X : same(a, b)
Grids(tr, c) == {t \in c : IsGrid(tr, t)}
Domains(tr, c) == {t \in c : Thing(tr, t).kind = "domain"}
Dots(tr, c) == UNION {Range(Thing(tr, t).points) : t \in Grids(tr, c)}
Lines(tr, c) == UNION {{<<Thing(tr, t).points[Thing(tr, t).edges[k][1] + 1], Thing(tr, t).points[Thing(tr, t).edges[k][2] + 1]>> :
                         k \in 1..Len(Thing(tr, t).edges)} : t \in c \ Domains(tr, c)}
Rectangles(tr, c) == {<<<<"0", "0">>, <<Thing(tr, t).w, Thing(tr, t).h>>>> : t \in Domains(tr, c)}
Shows(tr, c, pic) ==
  <<<<"every vertex is drawn where it is, and nothing else", SameSets(Range(pic.dots), Dots(tr, c), LAMBDA p, q : SameP(tr, p, q))>>,
    <<"every edge is drawn, and nothing else", SameSets(Range(pic.lines), Lines(tr, c), LAMBDA p, q : SameLine(tr, p, q))>>,
    <<"the rectangle of the domain", SameSets(Range(pic.rectangles), Rectangles(tr, c), LAMBDA p, q : SameLine(tr, p, q))>>>>
Inside(lim, lo, hi) == RLe(lim[1], lo) /\ RLe(hi, lim[2])
Limits(tr, cs, e) ==
  LET k == IF e.op = "new" THEN Len(cs.c) + 1 ELSE e.on
      pic == e.canvases[k]
      ext == Extent(tr, e.t)
      moved == e.op = "new" \/ IsGrid(tr, e.t)
  IN <<<<"the limits cover what is drawn", moved => Inside(pic.x, ext[1][1], ext[2][1]) /\ Inside(pic.y, ext[1][2], ext[2][2])>>,
       <<"the limits are not too wide on a new figure",
         e.op = "new" => \A i \in 1..2 :
           LET w == RAdd(RMaxSeq(<<RAbs(ext[1][i]), RAbs(ext[2][i])>>), RAdd(1, tr.size))
           IN Inside(<<RSub(ext[1][i], w), RAdd(ext[2][i], w)>>, (IF i = 1 THEN pic.x ELSE pic.y)[1], (IF i = 1 THEN pic.x ELSE pic.y)[2])>>,
       <<"limits only widen", e.op = "on" => LET old == cs.lim[e.on]
                                            IN Inside(pic.x, old.x[1], old.x[2]) /\ Inside(pic.y, old.y[1], old.y[2])>>,
       <<"new figures are true to scale", e.op = "new" => pic.aspect = "equal">>>>
DrawConds(tr, cs, e) ==
  LET now == After1(cs.c, e)
  IN <<<<"drawing on the given axis, or on a new figure", e.where>>,
       <<"canvases", Len(e.canvases) = Len(now)>>>>
     \o (IF Len(e.canvases) # Len(now) THEN <<>>
         ELSE Concat([k \in 1..Len(now) |-> Shows(tr, now[k], e.canvases[k])])
              \o (IF e.op \in {"new", "on"} THEN Limits(tr, cs, e) ELSE <<>>))

MyStart(tr) == [c |-> <<>>, lim |-> <<>>]
MyConds(tr, cs, e) == IF e.ev = "draw" THEN DrawConds(tr, cs, e) ELSE <<<<"failed: " \o ToString(e), FALSE>>>>
MyAfter(tr, cs, e) == IF e.ev = "draw" THEN [c |-> After1(cs.c, e), lim |-> [k \in 1..Len(e.canvases) |-> [x |-> e.canvases[k].x, y |-> e.canvases[k].y]]] ELSE cs
=============================================================================
