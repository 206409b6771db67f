------------------------------ MODULE Transfer ------------------------------
(***************************************************************************)
(* Non-scattering radiative transfer in modified Planck radiance           *)
(*   B(T) = 1 / (exp(h nu / k T) - 1).                                     *)
(* tau[i] is the opacity of the layer between levels i-1 and i, tau[1] is  *)
(* not used.  A step of the solver adds the next layer as seen from the    *)
(* observer: from the bottom up for a ground observer, from the top down   *)
(* for a satellite.                                                        *)
(***************************************************************************)
LOCAL INSTANCE Num
LOCAL INSTANCE Sequences
LOCAL INSTANCE Atmos

ExpMax == 125

Hvk(ghz) == ((ghz * "1e9") * Planck) / Boltzmann
B(hvk, t) == 1 / (Exp(hvk / t) - 1)
InvB(hvk, b) == IF NumEq(b, 0) THEN Real(0) ELSE hvk / Ln(1 + 1 / b)

(* Source radiance of a layer of opacity tau between a near and a far      *)
(* boundary (as seen by the observer).                                     *)
LayerSource(bNear, bFar, tau) == (bNear + bFar * Exp(-tau)) / (1 + Exp(-tau))

\* accumulated: radiance so far, opacity so far
AddLayer(acc, bNear, bFar, tau) ==
  [rad |-> acc.rad + LayerSource(bNear, bFar, tau) * Exp(-acc.tau) * (1 - Exp(-tau)),
   tau |-> acc.tau + tau]

Nothing == [rad |-> Real(0), tau |-> Real(0)]

(* Profiles indexed by level: what has been accumulated between the        *)
(* observer and level i.                                                   *)
DownProfile(hvk, t, tau) ==
  Scan(Len(t), Nothing, LAMBDA acc, i:
    IF i = 1 THEN Nothing ELSE AddLayer(acc, B(hvk, t[i-1]), B(hvk, t[i]), tau[i]))

UpProfile(hvk, t, tau) ==
  LET n == Len(t)
      s == Scan(n, Nothing, LAMBDA acc, k:
             IF k = 1 THEN Nothing
             ELSE LET i == n + 1 - k IN AddLayer(acc, B(hvk, t[i+1]), B(hvk, t[i]), tau[i+1]))
  IN Vec(n, LAMBDA i: s[n + 1 - i])

Profile(sat, hvk, t, tau) == IF sat THEN UpProfile(hvk, t, tau) ELSE DownProfile(hvk, t, tau)

(* Whole atmosphere *)
Atmosphere(sat, prof) == IF sat THEN prof[1] ELSE prof[Len(prof)]

Background(sat, hvk, t, es) == IF sat THEN es * B(hvk, t[1]) ELSE B(hvk, Tcosmic)

TotalRad(sat, hvk, t, es, atm) ==
  IF atm.tau < ExpMax THEN Background(sat, hvk, t, es) * Exp(-atm.tau) + atm.rad ELSE atm.rad

MeanRad(atm) ==
  IF atm.tau < ExpMax THEN atm.rad / (1 - Exp(-atm.tau)) ELSE atm.rad

(* Brightness temperatures; with no opacity at all the mean radiating      *)
(* temperature is undefined (NaN).                                         *)
Tb(sat, hvk, t, es, atm) == InvB(hvk, TotalRad(sat, hvk, t, es, atm))
TbAtm(hvk, atm) == InvB(hvk, atm.rad)
Tmr(hvk, atm) == InvB(hvk, MeanRad(atm))

(* Effective radiating temperature of the cloud between levels lo < hi, as *)
(* seen by the observer; undefined when what lies in front is opaque.      *)
CloudTmr(sat, hvk, prof, lo, hi) ==
  LET near == IF sat THEN hi ELSE lo
      far  == IF sat THEN lo ELSE hi
      rad == prof[far].rad - prof[near].rad
      tau == prof[far].tau - prof[near].tau
      src == IF tau > ExpMax THEN rad * Exp(prof[near].tau)
             ELSE (rad * Exp(prof[near].tau)) / (1 - Exp(-tau))
  IN InvB(hvk, src)
=============================================================================
