------------------------------ MODULE AbsTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded absorption coefficients.  A record holds the    *)
(* model of one species, optional changed coefficients, and points:        *)
(* conditions and what the library returned for them.                      *)
(***************************************************************************)
EXTENDS Num, Atmos, Absorption, Parameters, Report, Sequences, TLC, Json, IOUtils, FiniteSets
VARIABLES k, done

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Rtol == "1e-8"

\* the library returns the water and oxygen terms in ppm of refractivity
FromPpm(x, f) == x * "0.182" * f * Db2Np

\* lines of opposite signs may cancel: the tolerance is relative to the size of the terms
WaterPoint(r, q) ==
  LET L == ApplyWater(WaterTable[r.model], r.changes, r.model)
  IN IF NumEq(q.e, 0)
     THEN ChkNum("water.zero", q.line, 0, 0, 0) \cup ChkNum("water.zero", q.cont, 0, 0, 0)
     ELSE ChkNum("water.lines", FromPpm(q.line, q.f), WaterLines(r.model, L, q.t, q.pd + q.e, q.e, q.f), Rtol, "1e-15")
          \cup ChkNum("water.continuum", FromPpm(q.cont, q.f), WaterContinuum(r.model, L, q.t, q.pd + q.e, q.e, q.f), Rtol, "1e-15")

OxygenPoint(r, q) ==
  LET L == ApplyOxygen(OxygenTable[r.model], r.changes, r.model)
  IN ChkNum("oxygen.lines", FromPpm(q.line, q.f), OxygenLines(r.model, L, q.t, q.pd, q.e, q.f), Rtol, "1e-13")
     \cup ChkNum("oxygen.continuum", FromPpm(q.cont, q.f), OxygenContinuum(r.model, L, q.t, q.pd, q.e, q.f), Rtol, "1e-15")

OzonePoint(r, q) ==
  LET L == ApplyOzone(OzoneTable[r.model], r.changes)
  IN ChkNum("ozone", q.out, OzoneAbs(r.model, L, q.t, q.p, q.f, q.n), Rtol, "1e-18")

NitrogenPoint(r, q) == ChkNum("nitrogen", q.out, NitrogenAbs(r.model, q.t, q.pd, q.f), Rtol, "1e-18")

LiquidPoint(r, q) == ChkNum("liquid", q.out, LiquidAbs(r.model, q.t, q.den, q.f), Rtol, "1e-18")
IcePoint(r, q) == ChkNum("ice", q.out, IceAbs(q.den, q.f), Rtol, "1e-18")

\* what the library says it implements
ListedPoint(r, q) == Chk("listed: other models of " \o q.sp, {q.models[i] : i \in 1..Len(q.models)} =
                             CASE q.sp = "WaterVapour" -> WaterModels [] q.sp = "Oxygen" -> OxygenModels [] q.sp = "Ozone" -> OzoneModels [] OTHER -> {})
                     \cup Chk("listed: a model of " \o q.sp \o " twice", Cardinality({q.models[i] : i \in 1..Len(q.models)}) = Len(q.models))
                     \cup Chk("listed: number of species", Len(r.points) = 3)

Known(r) == CASE r.species = "water" -> r.model \in WaterModels
              [] r.species = "oxygen" -> r.model \in OxygenModels
              [] r.species = "ozone" -> r.model \in OzoneModels
              [] r.species = "nitrogen" -> r.model \in NitrogenModels
              [] r.species = "liquid" -> r.model \in LiquidModels
              [] OTHER -> TRUE

Point(r, q) == CASE r.species = "water" -> WaterPoint(r, q)
                 [] r.species = "oxygen" -> OxygenPoint(r, q)
                 [] r.species = "ozone" -> OzonePoint(r, q)
                 [] r.species = "nitrogen" -> NitrogenPoint(r, q)
                 [] r.species = "liquid" -> LiquidPoint(r, q)
                 [] r.species = "listed" -> ListedPoint(r, q)
                 [] r.species = "ice" -> IcePoint(r, q)

Failures(r) ==
  IF r.exc # "" THEN Chk("refused a supported model: " \o r.exc, ~Known(r))
  ELSE Chk("accepted a model that does not exist", Known(r))
       \cup (IF Known(r) THEN All(Len(r.points), LAMBDA i: Point(r, r.points[i])) ELSE {})

TraceInit == k \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ done' = TRUE /\ UNCHANGED k
TraceConforms ==
  done => LET bad == Failures(Trace[k])
          IN bad = {} \/ (PrintT("BAD " \o ToString(k) \o " " \o ToString(bad)) /\ FALSE)
=============================================================================
