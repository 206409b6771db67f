----------------------------- MODULE Simulation -----------------------------
(***************************************************************************)
(* One simulation: a function from its inputs r to its outputs.            *)
(*                                                                         *)
(* r.z p t rh     profile, heights in km, rh a fraction                    *)
(* r.frq r.ang    frequencies (GHz) and elevation angles (degrees)         *)
(* r.o3n          ozone number density by level, <<>> when not given       *)
(* r.sat r.ray    seen from space; ray tracing                             *)
(* r.iced         saturation over ice below 263.16 K                       *)
(* r.es           surface emissivity by frequency                          *)
(* r.cloudy r.base r.top r.liq r.ice   cloud levels (km) and densities     *)
(* r.models       [h2o, o2, n2, liq, o3] selected when it is executed      *)
(* r.changes      spectroscopic coefficients changed for this run          *)
(***************************************************************************)
EXTENDS Num, Atmos, Path, Transfer, Absorption, Parameters, Sequences, TLC

Rising(z)  == \A i \in 2..Len(z) : z[i] > z[i-1]
Falling(z) == \A i \in 2..Len(z) : z[i] < z[i-1]
Monotonic(z) == Rising(z) \/ Falling(z)
Rev(s) == Vec(Len(s), LAMBDA i: s[Len(s) + 1 - i])

\* the profile from the lowest level up, heights above the lowest level
Levels(r) ==
  LET o(s) == Reals(IF Falling(r.z) THEN Rev(s) ELSE s)
      z == o(r.z)
      t == o(r.t)
      e == TLCEval(Vec(Len(z), LAMBDA i: IF r.iced THEN IcedVapourPressure(t[i], o(r.rh)[i]) ELSE VapourPressure(t[i], o(r.rh)[i])))
      p == o(r.p)
  IN [z |-> TLCEval(Vec(Len(z), LAMBDA i: z[i] - z[1])), z0 |-> z[1], p |-> p, t |-> t, e |-> e,
      o3n |-> o(r.o3n), liq |-> o(r.liq), ice |-> o(r.ice),
      n |-> TLCEval(Vec(Len(z), LAMBDA i: RefIndex(p[i], t[i], e[i])))]

\* with ray tracing as the tests pin it, or (r.exact) as it should be
Exact(r) == "exact" \in DOMAIN r
Slant(r, lv, angle) ==
  IF r.ray THEN RayPathOf(lv.z, lv.n, angle, lv.z0, ~Exact(r)) ELSE PlaneParallel(lv.z, angle)
\* nothing is wrong with a traced path that is exact
Either(r, ray, F(_)) ==
  LET bad == F(r) IN
  IF bad = {} \/ ~ray THEN bad ELSE IF F(r @@ [exact |-> TRUE]) = {} THEN {} ELSE bad

(* ------------------------------ absorption ------------------------------ *)
OzoneUsed(r) == r.o3n # <<>> /\ r.models.o3 # ""
Lists(r) ==
  [h2o |-> TLCEval(ApplyWater(WaterTable[r.models.h2o], r.changes, r.models.h2o)),
   o2  |-> TLCEval(ApplyOxygen(OxygenTable[r.models.o2], r.changes, r.models.o2)),
   o3  |-> IF OzoneUsed(r) THEN TLCEval(ApplyOzone(OzoneTable[r.models.o3], r.changes)) ELSE <<>>]

WetAbs(r, ls, lv, f) ==
  TLCEval(Vec(Len(lv.z), LAMBDA i: WaterAbs(r.models.h2o, ls.h2o, lv.t[i], lv.p[i], lv.e[i], f)))
DryAbs(r, ls, lv, f) ==
  TLCEval(Vec(Len(lv.z), LAMBDA i:
    LET pd == lv.p[i] - lv.e[i] IN
    OxygenAbs(r.models.o2, ls.o2, lv.t[i], pd, lv.e[i], f)
    + NitrogenAbs(r.models.n2, lv.t[i], pd, f)
    + (IF OzoneUsed(r) THEN OzoneAbs(r.models.o3, ls.o3, lv.t[i], lv.p[i], f, lv.o3n[i]) ELSE 0)))
LiqAbs(r, lv, f) == TLCEval(Vec(Len(lv.z), LAMBDA i: LiquidAbs(r.models.liq, lv.t[i], lv.liq[i], f)))
FrozenAbs(lv, f) == TLCEval(Vec(Len(lv.z), LAMBDA i: IceAbs(lv.ice[i], f)))

(* -------------------------------- refusal ------------------------------- *)
(* Which classes of exception an execution may end with; {} when it must   *)
(* succeed.                                                                *)
AnyLiquid(r) == r.cloudy /\ \E i \in 1..Len(r.liq) : r.liq[i] > 0
Refusals(r) ==
  (IF r.models.h2o \notin WaterModels THEN {"AbsModelError"} ELSE {})
  \cup (IF r.models.o2 \notin OxygenModels THEN {"AbsModelError"} ELSE {})
  \cup (IF r.models.n2 \notin NitrogenModels THEN {"ValueError"} ELSE {})
  \cup (IF OzoneUsed(r) /\ r.models.o3 \notin OzoneModels THEN {"AbsModelError"} ELSE {})
  \cup (IF AnyLiquid(r) /\ r.models.liq \notin LiquidModels THEN {"ValueError"} ELSE {})
  \cup (IF ~Monotonic(r.z) THEN {"SystemExit"} ELSE {})

(* -------------------------------- clouds -------------------------------- *)
LevelAt(lv, h, z0) == CHOOSE i \in 1..Len(lv.z) : NumEq(lv.z[i], h - z0)
CloudBase(r, lv) == Vec(Len(r.base), LAMBDA c: LevelAt(lv, r.base[c], lv.z0))
CloudTop(r, lv) == Vec(Len(r.top), LAMBDA c: LevelAt(lv, r.top[c], lv.z0))

(* ------------------------------- amounts -------------------------------- *)
VapourProfile(lv) == TLCEval(Vec(Len(lv.z), LAMBDA i: VapourDensity(lv.t[i], lv.e[i])))
WetNProfile(lv) == TLCEval(Vec(Len(lv.z), LAMBDA i: WetN(lv.t[i], lv.e[i])))
DryNProfile(lv) == TLCEval(Vec(Len(lv.z), LAMBDA i: DryN(lv.p[i], lv.t[i], lv.e[i])))
Cm(x) == x / 10
=============================================================================
