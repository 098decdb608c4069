---------------------------- MODULE TraceParams ----------------------------
(* Validates recorded constructions of SimulationParams (property C24).     *)
EXTENDS TraceRun, Params

MyStart(tr) == NoState(tr)
MyAfter(tr, s, e) == KeepState(tr, s, e)

MyConds(tr, s, e) ==
  LET p == e.given
      want == Outcome(p)
  IN IF e.outcome # "accepted"
     THEN <<<<"meaningful parameters are rejected", ~Accepts(p)>>,
            <<"rejected with another error than ValueError", e.error = "ValueError">>>>
     ELSE <<<<"meaningless parameters are accepted", Accepts(p)>>,
            <<"mechanical initial temperature", REq(e.mech.initial_temperature, p.initial_temperature)>>,
            <<"mechanical search radius", REq(e.mech.search_radius, p.search_radius)>>,
            <<"mechanical fps", REq(e.mech.fps, p.fps)>>,
            <<"mechanical regularization", SameOption(e.mech.regularization, want.regularization)>>,
            <<"thermal search radius", REq(e.therm.search_radius, p.search_radius)>>,
            <<"thermal fps", REq(e.therm.fps, p.fps)>>,
            <<"thermal regularization", SameOption(e.therm.regularization, want.regularization)>>,
            <<"scale", REq(e.params.scale, p.scale)>>,
            <<"refinement factor", SameOption(e.params.refinement_factor, want.refinement_factor)>>>>
=============================================================================
