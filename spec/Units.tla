-------------------------------- MODULE Units --------------------------------
(***************************************************************************)
(* Humidity and unit conversions.  Pressures in hPa, temperatures in K,    *)
(* mixing ratios in g/kg, densities in g/m3 unless said otherwise.         *)
(***************************************************************************)
LOCAL INSTANCE Num
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Atmos

Eps == Real("0.621970585")              \* mass ratio of vapour and dry air
EpsV == Rdry / Rwatvap

Svp(t) == EsWater(t)
SvpIce(t) == EsIce(t, "273.15")
\* tc: temperature at and below which saturation is over ice, <<>> for none
SvpSwitch(t, tc) == IF tc # <<>> /\ t <= tc[1] THEN SvpIce(t) ELSE Svp(t)

E2Mr(p, e) == ((1000 * Eps) * e) / (p - e)
Mr2E(p, w) == (p * w) / (1000 * Eps + w)
SatMix(p, t, tc) == E2Mr(p, SvpSwitch(t, tc))
Mr2Rh1(p, t, w, tc) == (100 * Mr2E(p, w)) / SvpSwitch(t, tc)
Mr2Rh2(p, t, w, tc) == (100 * w) / SatMix(p, t, tc)
Mr2Rho(w, t, p) == VapourDensity(t, Mr2E(p, w))
\* rho2rh works with the rounded gas constant 216.7 = 1e5 / Rwatvap
Rho2E(rho, t) == (rho * t) / "216.7"
Rho2Rh1(rho, t, p) == Mr2Rh1(p, t, E2Mr(p, Rho2E(rho, t)), <<>>)
Rho2Rh2(rho, t, p) == Mr2Rh2(p, t, E2Mr(p, Rho2E(rho, t)), <<>>)
Rho2Mr(rho, t, p) == E2Mr(p, rho * RvapHpa * t)

VirtualT(t, w) == t * ((w + EpsV) / (EpsV * (1 + w)))     \* w in kg/kg

(* hypsometric thickness in km from the first level, with gas constant and *)
(* molar mass of dry air                                                   *)
RdHyps == Real("8.314462618") / "0.02896546"
Thickness(p, t, w) ==
  LET tv(i) == IF w = <<>> THEN t[i] ELSE VirtualT(t[i], w[i])
  IN Scan(Len(p), Real(0), LAMBDA acc, i:
       IF i = 1 THEN Real(0)
       ELSE acc + ((RdHyps / Gravity) * ((tv(i) + tv(i-1)) / 2) * Ln(p[i-1] / p[i])) / 1000)

(* relative humidity (fraction) from dew point and temperature in Celsius  *)
DewArm(td, t) == Exp(("17.625" * td) / ("243.04" + td)) / Exp(("17.625" * t) / ("243.04" + t))
DewTetens(td, t, ice) ==
  LET a == IF ice THEN Real("9.5") ELSE Real("7.5")
      b == IF ice THEN Real("265.5") ELSE Real("237.3")
  IN Exp(Ln(10) * ((td * a) / (td + b) - (t * a) / (t + b)))

\* kg/m3 of moist air, q specific humidity in kg/kg
AirDensity(q, p, t) == (100 * p) / ((Rdry * (1 + ((1 - Eps) / Eps) * q)) * t)
\* molecules/m3 of a gas of mr ppmv, p in Pa
NumberDensity(mr, p, t) == ((Avogadro * p) / (GasR * t)) * (mr * "1e-06")

(* molecular masses (u) of the gases 0 to 31, in order; 31 is CCl3F        *)
MassTable == <<18, 44, 48, 44, 28, 16, 32, 30, 64, 46, 17, 63, 17, 20, 36, 81, 128, 51, 60, 30,
               52, 28, 27, 50, 34, 26, 30, 34, 66, 146, 34, 136>>
MassAir == Real("28.9402753669")
ProtonMass == Real("1.6726485e-27")
MassKnown(g) == g = 99 \/ (g >= 0 /\ g <= 31)
Amu(g) == IF g = 99 THEN MassAir ELSE Real(MassTable[g + 1])
GasMass(g) == ProtonMass * Amu(g)
Ppmv2Gkg(x, g) == ((x * "1e-06") * (Amu(g) / MassAir)) * 1000

ZeroC == Real("273.15")
ToKelvin(c) == c + ZeroC
ToCelsius(k) == k - ZeroC

(* U.S. standard atmosphere below the tropopause: lapse rate 6.5 K/km,     *)
(* gamma in K/m; the exponent is Rd gamma / g                              *)
P2H(p, gamma) == (288 / gamma) * (1 - Exp(Ln(p / "1013.25") * ((RdHyps * gamma) / Gravity)))
H2P(h, gamma) == "1013.25" * Exp((Gravity / (RdHyps * gamma)) * Ln(1 - (h * gamma) / 288))
Lapse == Real("0.0065")
PinnedLapse == Real("-0.0065")          \* what the existing tests pin

ConstantTable ==
  [avogadro |-> <<Avogadro, "[mol-1]">>, boltzmann |-> <<Boltzmann, "[J K-1]">>, EarthRadius |-> <<EarthRadius, "[km]">>,
   gravity |-> <<Gravity, "[m s-2]">>, light |-> <<LightSpeed, "[m s-1]">>, Np2dB |-> <<Np2dB, "[dB/Np]">>,
   planck |-> <<Planck, "[J Hz-1]">>, Rdry |-> <<Rdry, "[J kg-1 K-1]">>, Rwatvap |-> <<Rwatvap, "[J kg-1 K-1]">>,
   Tcosmicbkg |-> <<Tcosmic, "[K]">>, R |-> <<GasR, "[J mol-1 K-1]">>]
=============================================================================
