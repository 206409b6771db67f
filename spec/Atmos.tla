------------------------------- MODULE Atmos -------------------------------
(***************************************************************************)
(* Moist air: physical constants, saturation vapour pressure, vapour       *)
(* density and Thayer (1974) refractivity of a level.                      *)
(* Pressures in hPa, temperatures in K, densities in g/m3.                 *)
(***************************************************************************)
LOCAL INSTANCE Num

Avogadro   == Real("6.022140857e+23")
Boltzmann  == Real("1.3806579999999998e-23")
EarthRadius== Real("6370.949")          \* km
LightSpeed == Real("299792458.0")
Planck     == Real("6.626075499999999e-34")
Rdry       == Real("287.04")
Rwatvap    == Real("461.52")
GasR       == Real("8.31446261815324")
Tcosmic    == Real("2.728")
Gravity    == Real("9.80665")
Np2dB      == Real("4.342944819032518")
Db2Np      == Ln(10) / 10               \* nepers per decibel

(* Goff-Gratch over water (boiling point 373.16 K, 1013.246 hPa) *)
EsWater(t) ==
  LET y == "373.16" / t
      e10 == ("-7.90298" * (y - 1)) + ("5.02808" * Log10(y))
               - ("1.3816e-07" * ((10 ^ ("11.344" * (1 - 1 / y))) - 1))
               + ("0.0081328" * ((10 ^ ("-3.49149" * (y - 1))) - 1))
               + Log10("1013.246")
  IN Real(10) ^ e10

(* Goff-Gratch over ice; the reference temperature differs between the     *)
(* solver (273.16 K) and the humidity conversions (273.15 K).              *)
EsIce(t, tref) ==
  LET y == tref / t
      e10 == ("-9.09718" * (y - 1)) - ("3.56654" * Log10(y))
               + ("0.876793" * (1 - 1 / y)) + Log10("6.1071")
  IN Real(10) ^ e10

RvapHpa == Rwatvap * "1e-05"            \* hPa m3 g-1 K-1

VapourPressure(t, rh) == rh * EsWater(t)
\* over ice below 263.16 K
IcedVapourPressure(t, rh) == rh * (IF t < "263.16" THEN EsIce(t, "273.16") ELSE EsWater(t))
VapourDensity(t, e)   == e / (RvapHpa * t)

(* Thayer: dry and wet refractivity (N units) *)
DryN(p, t, e) ==
  LET pa == p - e
      tc == t - "273.16"
      zinv == 1 + pa * (("5.79e-07" * (1 + "0.52" / t)) - ("0.00094611" * tc) / (t * t))
  IN "77.6036" * (pa / t) * zinv

WetN(t, e) ==
  LET tc == t - "273.16"
      zinv == 1 + 1650 * (e / (t * t * t))
                     * (1 - "0.01317" * tc + "0.000175" * tc ^ 2 + "1.44e-06" * tc ^ 3)
  IN ("64.79" * (e / t) + 377600 * (e / (t * t))) * zinv

RefIndex(p, t, e) == 1 + (DryN(p, t, e) + WetN(t, e)) * "1e-06"
=============================================================================
