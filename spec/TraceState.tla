----------------------------- MODULE TraceState -----------------------------
(***************************************************************************)
(* Recorded states as fields (C25) and as plots (C26).                      *)
(*                                                                         *)
(* A trace has the coarse mesh (points, triangles), the mesh the            *)
(* temperatures live on (fine_points, fine_triangles; the same for form     *)
(* "plain"), and the states: sequences of [y, theta] of nodal data.         *)
(* For plots, plot_points and plot_triangles are the plotting grid, and     *)
(* parent tells for every one of its points a coarse and a fine triangle    *)
(* (numbered from 1) that contain it.                                       *)
(***************************************************************************)
EXTENDS TraceRun, Fem, Views

C1(tr) == tr.form = "c1"
Corners(pts, t) == TLCEval(<<pts[t[1] + 1], pts[t[2] + 1], pts[t[3] + 1]>>)
Comp(y, t, i) == <<y[t[1] + 1][i], y[t[2] + 1][i], y[t[3] + 1][i]>>
Of(d, t) == <<d[t[1] + 1], d[t[2] + 1], d[t[3] + 1]>>
Contains(T, p) == LET l == Bary(T, p) IN \A i \in 1..3 : RLe(RNeg(Tol), l[i])
Holding(pts, ts, p) == {k \in 1..Len(ts) : Contains(Corners(pts, ts[k]), p)}
Steep(T) == RMaxAbs(Concat(GradL(T)))

Near2(u, v, mag) == Len(u) = 2 /\ CloseTo(u[1], v[1], mag) /\ CloseTo(u[2], v[2], mag)
Near22(A, B, mag) == Len(A) = 2 /\ Near2(A[1], B[1], mag) /\ Near2(A[2], B[2], mag)

(* one component of the deformation on triangle k: value, gradient, Hessian *)
Part(tr, y, k, i, p) ==
  LET t == tr.triangles[k]
      T == Corners(tr.points, t)
      l == TLCEval([j \in 1..3 |-> RRound(Bary(T, p)[j])])
      d == Comp(y, t, i)
  IN IF C1(tr)
     THEN LET E == TLCEval(Element(T, d)) IN [v |-> ElemValue(E, l), g |-> ElemGrad(E, l), h |-> ElemHess(E, l), m |-> RMaxAbs(E.net), s |-> Steep(T)]
     ELSE [v |-> P1Value(d, l), g |-> P1Grad(T, d), h |-> <<>>, m |-> RMaxAbs(d), s |-> Steep(T)]
YConds(tr, st, e, k) ==
  \A i \in 1..2 :
    LET x == TLCEval(Part(tr, st.y, k, i, e.p))
        s == RAdd(1, x.s)
    IN /\ CloseTo(e.y[i], x.v, x.m)
       /\ Near2(e.strain[i], x.g, RMul(x.m, s))
       /\ C1(tr) => Near22(e.hyper[i], x.h, RMul(x.m, Sq(s)))
ThetaConds(tr, st, e, k) ==
  LET t == tr.fine_triangles[k]
      T == Corners(tr.fine_points, t)
      d == Of(st.theta, t)
  IN /\ CloseTo(e.theta, P1Value(d, Bary(T, e.p)), RMaxAbs(d))
     /\ Near2(e.theta_grad, P1Grad(T, d), RMul(RMaxAbs(d), RAdd(1, Steep(T))))
PointConds(tr, e) ==
  LET st == tr.states[e.state]
  IN IF Len(e.y) # 2 \/ Len(e.strain) # 2 THEN <<<<"shape of the deformation", FALSE>>>>
     ELSE <<<<"deformation at a point", \E k \in Holding(tr.points, tr.triangles, e.p) : YConds(tr, st, e, k)>>,
            <<"temperature at a point", \E k \in Holding(tr.fine_points, tr.fine_triangles, e.p) : ThetaConds(tr, st, e, k)>>>>

(* -------------------------------- plots -------------------------------- *)
Positions(tr, n) == Concat([k \in 1..n |-> [v \in 1..Len(tr.points) |->
  IF C1(tr) THEN <<tr.states[k].y[v][1][1], tr.states[k].y[v][2][1]>> ELSE tr.states[k].y[v]]])
Temperatures(tr, n) == Concat([k \in 1..n |-> tr.states[k].theta])
Axis(ps, i) == [k \in 1..Len(ps) |-> ps[k][i]]
LimitConds(tr, e) ==
  LET ps == TLCEval(Positions(tr, e.n))
      xs == TLCEval(Axis(ps, 1)) ys == TLCEval(Axis(ps, 2))
      want == TLCEval(Scales(xs, ys, Temperatures(tr, e.n)))
  IN <<<<"horizontal limits", Len(e.xlim) = 2 /\ Close(e.xlim[1], want.x[1]) /\ Close(e.xlim[2], want.x[2])>>,
       <<"vertical limits", Len(e.ylim) = 2 /\ Close(e.ylim[1], want.y[1]) /\ Close(e.ylim[2], want.y[2])>>,
       <<"true to scale", e.aspect = "equal">>,
       <<"colour scale", Len(e.clim) = 2 /\ Close(e.clim[1], 0) /\ Close(e.clim[2], want.hot)>>>>
DeformedAt(tr, y, v) ==
  LET p == tr.plot_points[v] k == tr.parent[v][1]
  IN IF C1(tr)
     THEN LET t == tr.triangles[k] T == Corners(tr.points, t) l == Bary(T, p)
          IN <<ElemValue(Element(T, Comp(y, t, 1)), l), ElemValue(Element(T, Comp(y, t, 2)), l)>>
     ELSE y[v]
ThetaAt(tr, theta, v) ==
  IF C1(tr) THEN LET t == tr.fine_triangles[tr.parent[v][2]] IN P1Value(Of(theta, t), Bary(Corners(tr.fine_points, t), tr.plot_points[v]))
  ELSE theta[v]
IsPermutation(m, n) == Len(m) = n /\ {m[k] : k \in 1..n} = 1..n
SamePolygon(P, Q) == Len(P) >= 3 /\ (\A i \in 1..3 : \E j \in 1..Len(P) : Close(P[j][1], Q[i][1]) /\ Close(P[j][2], Q[i][2]))
                     /\ (\A j \in 1..Len(P) : \E i \in 1..3 : Close(P[j][1], Q[i][1]) /\ Close(P[j][2], Q[i][2]))
PictureConds(tr, st, e) ==
  LET n == Len(tr.plot_points)
      pos == TLCEval([v \in 1..n |-> TLCEval(DeformedAt(tr, st.y, v))])
      th == TLCEval([v \in 1..n |-> RRound(ThetaAt(tr, st.theta, v))])
      ts == tr.plot_triangles
      tri(k) == <<pos[ts[k][1] + 1], pos[ts[k][2] + 1], pos[ts[k][3] + 1]>>
      mean(k) == RDiv(RSum(Of(th, ts[k])), 3)
  IN <<<<"one polygon per triangle", Len(e.polygons) = Len(ts) /\ Len(e.values) = Len(ts) /\ IsPermutation(e.match, Len(ts))>>,
       <<"triangles at their deformed positions",
         IsPermutation(e.match, Len(e.polygons)) /\ Len(e.match) = Len(ts) /\ \A k \in 1..Len(ts) : SamePolygon(e.polygons[e.match[k]], tri(k))>>,
       <<"coloured by the temperature",
         IsPermutation(e.match, Len(e.values)) /\ Len(e.match) = Len(ts) /\ \A k \in 1..Len(ts) : Close(e.values[e.match[k]], mean(k))>>>>
PlotConds(tr, e) ==
  LET k == Shown(e.n, e.index)
  IN IF k = 0 THEN <<<<"no plot outside the history", e.figures = 0>>>>
     ELSE IF e.figures # 1 THEN <<<<"one plot", FALSE>>>>
     ELSE LimitConds(tr, e) \o PictureConds(tr, tr.states[k], e)
SavedConds(tr, e) ==
  IF Shown(e.n, e.index) = 0 THEN <<<<"no file outside the history", e.files = <<>>>>>>
  ELSE <<<<"name of the file", e.files = <<FileName(e.n, e.index)>>>>>>
FrameConds(tr, e) == LimitConds(tr, e) \o PictureConds(tr, tr.states[e.index + 1], e)

MyStart(tr) == "-"
MyConds(tr, s, e) ==
  CASE e.ev = "point" -> PointConds(tr, e)
    [] e.ev = "outside" -> <<<<"evaluation outside the body: " \o e.what, ~e.ok>>>>
    [] e.ev = "create" -> <<<<"data that do not fit: " \o e.what, ~e.ok>>>>
    [] e.ev = "plot" -> PlotConds(tr, e)
    [] e.ev = "saved" -> SavedConds(tr, e)
    [] e.ev = "frames" -> <<<<"one frame per recorded state", e.count = e.n>>>>
    [] e.ev = "frame" -> FrameConds(tr, e)
    [] OTHER -> <<<<"failed: " \o ToString(e), FALSE>>>>
MyAfter(tr, s, e) == s
=============================================================================
