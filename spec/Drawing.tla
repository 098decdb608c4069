------------------------------ MODULE Drawing -------------------------------
(***************************************************************************)
(* Pictures of grids and domains (C28).  A canvas holds what was drawn on    *)
(* it; its limits are intervals.  Grid i is drawn as the sets dots and lines *)
(* (module Mesh: vertices and edges), a domain as the rectangle of its size. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Blank == [things |-> {}, x |-> <<>>, y |-> <<>>, turned |-> FALSE]
(* an axis of the caller, with something of his own on it *)
Own(what) == [things |-> {what}, x |-> <<0, 1>>, y |-> <<0, 1>>, turned |-> FALSE]
(* the caller may let an axis point the other way; it still shows the same *)
Turned(c) == [c EXCEPT !.turned = ~@]
(* the least interval that covers both *)
Hull(I, lo, hi) == IF I = <<>> THEN <<lo, hi>> ELSE <<IF lo < I[1] THEN lo ELSE I[1], IF hi > I[2] THEN hi ELSE I[2]>>
(* a grid, or anything on a new canvas *)
Drawn(c, what, w, h) == [c EXCEPT !.things = @ \cup {what}, !.x = Hull(@, 0, w), !.y = Hull(@, 0, h)]
(* a domain on an existing canvas does not change the limits *)
Placed(c, what) == [c EXCEPT !.things = @ \cup {what}]
=============================================================================
