---------------------------- MODULE TraceEnergy ----------------------------
(***************************************************************************)
(* Objectives posed by single steps against the functionals of module       *)
(* Energy (C06 - C08).                                                      *)
(*                                                                         *)
(* A trace has the mesh (for kind "c1" also the refined one), its outer     *)
(* edges, frame rate and regularisation.  Every event has the previous      *)
(* deformation and temperature, and by how much the posed objective is      *)
(* larger at the unknowns a than at b; a thermal one also has the new       *)
(* deformation y and the external temperature ext.                          *)
(***************************************************************************)
EXTENDS TraceRun, Energy

M(tr) == [points |-> tr.points, triangles |-> tr.triangles]
N(tr) == [points |-> tr.fine_points, triangles |-> tr.fine_triangles]
Near(got, want, size) == CloseBy(got, want, size)

PlainMechConds(tr, e) ==
  LET d == RSub(PlainMech(M(tr), e.prev_y, e.prev_theta, e.a, tr.fps), PlainMech(M(tr), e.prev_y, e.prev_theta, e.b, tr.fps))
      size == RAdd(PlainMechSize(M(tr), e.prev_y, e.a, tr.fps), PlainMechSize(M(tr), e.prev_y, e.b, tr.fps))
  IN <<<<"mechanical objective", Near(e.diff, d, size)>>>>
RegMechConds(tr, e) ==
  LET d == RSub(RegMech(M(tr), N(tr), e.prev_y, e.prev_theta, e.a, tr.fps, tr.reg), RegMech(M(tr), N(tr), e.prev_y, e.prev_theta, e.b, tr.fps, tr.reg))
      size == RegMechSize(M(tr), N(tr), e.prev_y, e.a, tr.fps, tr.reg)
  IN <<<<"regularised mechanical objective", Near(e.diff, d, size)>>>>
ExchangeSize(mesh, tr, e) == RAdd(Exchange(mesh, tr.outer, EdgeSimpson, e.a, RNeg(e.ext)), Exchange(mesh, tr.outer, EdgeSimpson, e.b, RNeg(e.ext)))
Exchanged(mesh, tr, e, rule) == RSub(Exchange(mesh, tr.outer, rule, e.a, e.ext), Exchange(mesh, tr.outer, rule, e.b, e.ext))
PlainHeatConds(tr, e) ==
  LET d == TLCEval(RSub(PlainHeat(M(tr), e.prev_y, e.y, e.prev_theta, e.a, tr.fps), PlainHeat(M(tr), e.prev_y, e.y, e.prev_theta, e.b, tr.fps)))
      size == TLCEval(RSum(<<PlainHeatSize(M(tr), e.prev_y, e.y, e.prev_theta, e.a, tr.fps), PlainHeatSize(M(tr), e.prev_y, e.y, e.prev_theta, e.b, tr.fps),
                             ExchangeSize(M(tr), tr, e)>>))
  IN <<<<"thermal objective", \/ Near(e.diff, RAdd(d, Exchanged(M(tr), tr, e, EdgeMid)), size)
                              \/ Near(e.diff, RAdd(d, Exchanged(M(tr), tr, e, EdgeSimpson)), size)>>>>
RegHeatConds(tr, e) ==
  LET d == TLCEval(RSub(RegHeat(M(tr), N(tr), e.prev_y, e.y, e.prev_theta, e.a, tr.fps), RegHeat(M(tr), N(tr), e.prev_y, e.y, e.prev_theta, e.b, tr.fps)))
      size == TLCEval(RAdd(RegHeatSize(M(tr), N(tr), e.prev_y, e.y, e.prev_theta, e.a, tr.fps), ExchangeSize(N(tr), tr, e)))
  \* the exchange of heat with the environment is a matter of C02
  IN <<<<"regularised thermal objective", \/ Near(e.diff, d, size)
                                          \/ Near(e.diff, RAdd(d, Exchanged(N(tr), tr, e, EdgeMid)), size)
                                          \/ Near(e.diff, RAdd(d, Exchanged(N(tr), tr, e, EdgeSimpson)), size)>>>>

MyStart(tr) == "-"
MyConds(tr, s, e) ==
  CASE e.ev = "mech" -> IF tr.kind = "c1" THEN RegMechConds(tr, e) ELSE PlainMechConds(tr, e)
    [] e.ev = "heat" -> IF tr.kind = "c1" THEN RegHeatConds(tr, e) ELSE PlainHeatConds(tr, e)
    [] OTHER -> <<<<"failed: " \o ToString(e), FALSE>>>>
MyAfter(tr, s, e) == s
=============================================================================
