------------------------------ MODULE FunTrace ------------------------------
(***************************************************************************)
(* Conformance of calls of single functions: r.fn names the function,      *)
(* r.a holds its arguments (arrays as sequences, scalars as one-element    *)
(* sequences), r.out its results as sequences, r.exc the exception it      *)
(* ended with, r.warned whether it warned, r.kept whether its arguments    *)
(* were left as they were, r.shape whether the results have the shape of   *)
(* the arguments.  A function of arrays acts element by element.           *)
(***************************************************************************)
EXTENDS Num, Atmos, Path, Transfer, Units, Report, Sequences, TLC, Json, IOUtils, FiniteSets
VARIABLES k, done

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Rtol == "1e-9"

\* a one-element sequence stands for every element
El(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]
Width(a) == Fold(Len(a), 1, LAMBDA acc, n: IF Len(a[n]) > acc THEN Len(a[n]) ELSE acc)
Map1(a, F(_)) == Vec(Width(a), LAMBDA i: F(El(a[1], i)))
Map2(a, F(_, _)) == Vec(Width(a), LAMBDA i: F(El(a[1], i), El(a[2], i)))
Map3(a, F(_, _, _)) == Vec(Width(a), LAMBDA i: F(El(a[1], i), El(a[2], i), El(a[3], i)))

Map4(a, F(_, _, _, _)) == Vec(Width(a), LAMBDA i: F(El(a[1], i), El(a[2], i), El(a[3], i), El(a[4], i)))

(* combinations of uncertain quantities (C17): o is [fun, a, b, covariance]; the variance is g' V g with  *)
(* the gradient g of the combination and the covariance matrix V of its operands                          *)
Combined(o, x, y) ==
  CASE o[1] = "aA" -> o[2] * x [] o[1] = "aA+bB" -> (o[2] * x) + (o[3] * y) [] o[1] = "aA-bB" -> (o[2] * x) - (o[3] * y)
    [] o[1] = "A*B" -> x * y [] o[1] = "A/B" -> x / y [] o[1] = "A^a" -> x ^ o[2]
Gradient(o, x, y) ==
  CASE o[1] = "aA" -> <<o[2], 0>> [] o[1] = "aA+bB" -> <<o[2], o[3]>> [] o[1] = "aA-bB" -> <<o[2], 0 - o[3]>>
    [] o[1] = "A*B" -> <<y, x>> [] o[1] = "A/B" -> <<1 / y, 0 - (x / (y * y))>> [] o[1] = "A^a" -> <<o[2] * (x ^ (o[2] - 1)), 0>>
Propagated(o, x, y, sx, sy) ==
  LET g == TLCEval(Gradient(o, x, y))
      gx == g[1] * sx
      gy == g[2] * sy
  IN IF o[1] \in {"aA", "A^a"} THEN Abs(gx)
     ELSE Sqrt(Max2(0, ((gx * gx) + (gy * gy)) + (2 * ((g[1] * g[2]) * o[4]))))
Combinations == {"aA", "aA+bB", "aA-bB", "A*B", "A/B", "A^a"}

\* the results wanted, by function; options in r.opt
Want(r) ==
  LET a == r.a o == r.opt IN
  CASE r.fn = "eswat_goffgratch" -> << Map1(a, LAMBDA t: Svp(t)) >>
    [] r.fn = "esice_goffgratch" -> << Map1(a, LAMBDA t: SvpIce(t)) >>
    [] r.fn = "satvap"   -> << Map1(a, LAMBDA t: SvpSwitch(t, o)) >>
    [] r.fn = "satmix"   -> << Map2(a, LAMBDA p, t: SatMix(p, t, o)) >>
    [] r.fn = "mr2rh"    -> << Map3(a, LAMBDA p, t, w: Mr2Rh1(p, t, w, o)), Map3(a, LAMBDA p, t, w: Mr2Rh2(p, t, w, o)) >>
    [] r.fn = "mr2rho"   -> << Map3(a, LAMBDA w, t, p: Mr2Rho(w, t, p)) >>
    [] r.fn = "mr2e"     -> << Map2(a, LAMBDA p, w: Mr2E(p, w)) >>
    [] r.fn = "e2mr"     -> << Map2(a, LAMBDA p, e: E2Mr(p, e)) >>
    [] r.fn = "rho2rh"   -> << Map3(a, LAMBDA q, t, p: Rho2Rh1(q, t, p)), Map3(a, LAMBDA q, t, p: Rho2Rh2(q, t, p)) >>
    [] r.fn = "rho2mr"   -> << Map3(a, LAMBDA q, t, p: Rho2Mr(q, t, p)) >>
    [] r.fn = "tk2b_mod" -> << Map2(a, LAMBDA h, t: B(h, t)) >>
    [] r.fn = "virtual_temperature" -> << Map2(a, LAMBDA t, w: VirtualT(t, w)) >>
    [] r.fn = "atmospheric_tickness" -> << Thickness(a[1], a[2], IF Len(a) > 2 THEN a[3] ELSE <<>>) >>
    [] r.fn = "dewpoint2rh" -> << Map2(a, LAMBDA td, t: IF o[1] = "arm" THEN DewArm(td, t) ELSE DewTetens(td, t, o[2] = "ice")) >>
    [] r.fn = "kgkg_to_kgm3" -> << Map3(a, LAMBDA q, p, t: AirDensity(q, p, t)) >>
    [] r.fn = "ppmv_to_moleculesm3" -> << Map3(a, LAMBDA x, p, t: NumberDensity(x, p, t)) >>
    [] r.fn = "ppmv2gkg" -> << Map1(<<a[1]>>, LAMBDA x: Ppmv2Gkg(x, o[1])) >>
    [] r.fn = "gas_mass" -> << <<GasMass(o[1])>> >>
    [] r.fn = "to_kelvin"  -> << Map1(a, LAMBDA x: ToKelvin(x)) >>
    [] r.fn = "to_celsius" -> << Map1(a, LAMBDA x: ToCelsius(x)) >>
    [] r.fn = "pressure_to_height" -> << Map1(a, LAMBDA x: P2H(x, Lapse)) >>
    [] r.fn = "height_to_pressure" -> << Map1(a, LAMBDA x: H2P(x, Lapse)) >>
    [] r.fn = "constants" -> << <<ConstantTable[o[1]][1]>> >>
    [] r.fn = "bright"   -> << Map2(a, LAMBDA h, b: InvB(h, b)) >>
    [] r.fn = "vapor"    -> LET ev(t, h) == IF o[1] = "ice" THEN IcedVapourPressure(t, h) ELSE VapourPressure(t, h)
                            IN << Map2(a, ev), Map2(a, LAMBDA t, h: VapourDensity(t, ev(t, h))) >>
    [] r.fn = "refractivity" -> << Map3(a, LAMBDA p, t, e: DryN(p, t, e)), Map3(a, LAMBDA p, t, e: WetN(t, e)),
                                   Map3(a, LAMBDA p, t, e: RefIndex(p, t, e)) >>
    [] r.fn = "ray_tracing" -> << RayPath(a[1], a[2], a[3][1], a[4][1]) >>
    [] r.fn = "exponential_integration" ->
         LET lay == LayerIntegrals(a[1], a[2], o[1] = "mean") IN << <<Sum(lay) * a[3][1]>>, lay >>
    [] r.fn = "cloud_integrated_density" -> << <<CloudAmount(a[1], a[2], o[1], o[2])>> >>
    [] r.fn = "uncertainty_propagation" -> << Map4(a, LAMBDA x, y, sx, sy: Combined(o, x, y)),
                                              Map4(a, LAMBDA x, y, sx, sy: Propagated(o, x, y, sx, sy)) >>
    \* a conversion there and back again: the first argument returns
    [] r.fn \in {"rt:e-mr", "rt:mr-e", "rt:rho-mr", "rt:mr-rho", "rt:planck", "rt:celsius", "rt:height", "rt:pressure"} -> << a[1] >>

\* what the existing tests pin where the documented value is another one
Pinned(r) ==
  CASE r.fn = "to_kelvin"  -> << Map1(r.a, LAMBDA x: x + "273.25") >>
    [] r.fn = "to_celsius" -> << Map1(r.a, LAMBDA x: x - "273.25") >>
    [] r.fn = "pressure_to_height" -> << Map1(r.a, LAMBDA x: P2H(x, PinnedLapse)) >>
    [] r.fn = "height_to_pressure" -> << Map1(r.a, LAMBDA x: H2P(x, PinnedLapse)) >>
    [] r.fn = "gas_mass" /\ r.opt[1] = 31 -> << <<46 * ProtonMass>> >>
    [] r.fn = "ray_tracing" -> << RayPathPinned(r.a[1], r.a[2], r.a[3][1], r.a[4][1]) >>
    [] r.fn = "ppmv2gkg" /\ r.opt[1] = 31 -> << Map1(<<r.a[1]>>, LAMBDA x: (x * "1e-06" * (46 / MassAir)) * 1000) >>
    [] OTHER -> <<>>

\* calls that cannot succeed
Refused(r) ==
  CASE r.fn \in {"gas_mass", "ppmv2gkg"} -> ~MassKnown(r.opt[1])
    [] r.fn = "constants" -> r.opt[1] \notin DOMAIN ConstantTable
    [] r.fn = "uncertainty_propagation" -> r.opt[1] \notin Combinations
    [] OTHER -> FALSE

\* calls that may end with nothing but must then say so
MustWarn(r) ==
  CASE r.fn = "ray_tracing" -> (\E i \in 1..Len(r.a[2]) : r.a[2][i] < 1) \/ Ducts(r.a[1], r.a[2], r.a[3][1], r.a[4][1])
    [] r.fn = "exponential_integration" -> \E i \in 1..Len(r.a[1]) : r.a[1][i] < 0
    [] OTHER -> FALSE

Tol(r) == IF r.fn \in {"rt:height", "rt:pressure", "rt:planck"} THEN "1e-7" ELSE Rtol
Agree(r, want, name) ==
  IF Len(r.out) # Len(want) THEN {name \o ": " \o ToString(Len(r.out)) \o " results instead of " \o ToString(Len(want))}
  ELSE All(Len(want), LAMBDA n: ChkVec(name \o "#" \o ToString(n), r.out[n], want[n], Tol(r), "1e-300"))

Unit(r) == IF r.fn = "constants" THEN Chk("constants unit", r.text = ConstantTable[r.opt[1]][2]) ELSE {}

\* with ONLY=kept nothing but the arguments is looked at (C02)
OnlyKept == TLCEval("ONLY" \in DOMAIN IOEnv)
Failures(r) ==
  Chk(r.fn \o ": arguments changed", r.kept)
  \cup (IF OnlyKept THEN {}
        ELSE IF Refused(r) THEN Chk(r.fn \o ": was not refused", r.exc # "")
        ELSE IF MustWarn(r) THEN Chk(r.fn \o ": neither warned nor refused", r.warned \/ r.exc # "")
        ELSE IF r.exc # "" THEN {r.fn \o ": ended with " \o r.exc}
        ELSE Chk(r.fn \o ": shape", r.shape) \cup Unit(r)
             \cup (IF Pinned(r) # <<>>
                   THEN LET doc == Agree(r, Want(r), r.fn)
                        IN IF doc = {} THEN {}
                           ELSE {r.fn \o ": not the documented value"} \cup Agree(r, Pinned(r), r.fn \o " (as pinned by the tests)")
                   ELSE Agree(r, Want(r), r.fn)))

TraceInit == k \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ done' = TRUE /\ UNCHANGED k
TraceConforms ==
  done => LET bad == Failures(Trace[k])
          IN bad = {} \/ (PrintT("BAD " \o ToString(k) \o " " \o ToString(bad)) /\ FALSE)
=============================================================================
