--------------------------- MODULE TransferDesign ---------------------------
(***************************************************************************)
(* The specified radiative transfer by itself: an atmosphere is built      *)
(* level by level, and everything the listed properties say of brightness  *)
(* temperatures must hold of what Transfer computes for it (C05, C14).     *)
(***************************************************************************)
EXTENDS Transfer, Num, Sequences, TLC, IOUtils
LOCAL INSTANCE Atmos
VARIABLES t, tau, ghz

Levels == atoi(IOEnv.LEVELS)
Temps == {"190", "255", "310"}
Layers == {"0", "1e-09", "0.01", "1", "40", "130"}
Emissivities == <<Real(0), Real("0.4"), Real(1)>>

DInit == /\ ghz \in {1, 183, 900}
         /\ \E x \in Temps : t = <<Real(x)>>
         /\ tau = <<Real(0)>>
DNext == /\ Len(t) < Levels
         /\ \E x \in Temps, d \in Layers : t' = Append(t, Real(x)) /\ tau' = Append(tau, Real(d))
         /\ UNCHANGED ghz

hvk == Hvk(ghz)
N == Len(t)
Atm(sat) == Atmosphere(sat, Profile(sat, hvk, t, tau))
Of(sat, e) == Tb(sat, hvk, t, Emissivities[e], Atm(sat))
Hot == Fold(N, Tcosmic, LAMBDA a, i: Max2(a, t[i]))
Cold == Fold(N, t[1], LAMBDA a, i: Min2(a, t[i]))
Eps == "1e-9"

(* never warmer than the warmest source; never darker than the attenuated  *)
(* background                                                               *)
Bounded == \A sat \in BOOLEAN : LET a == Atm(sat) IN
             /\ a.rad >= 0
             /\ \A e \in 1..3 : LET b == Tb(sat, hvk, t, Emissivities[e], a) IN b >= 0 /\ b <= Hot * (1 + Real(Eps))
             /\ (~sat => TotalRad(sat, hvk, t, 1, a) >= B(hvk, Tcosmic) * Exp(0 - a.tau) * (1 - Real(Eps)))
\* an opaque isothermal atmosphere is seen at its own temperature
Isothermal == (\A i \in 1..N : NumEq(t[i], t[1])) /\ Atm(TRUE).tau >= 40
                => \A sat \in BOOLEAN, e \in 1..3 : Close(Of(sat, e), t[1], Eps, 0)
\* more emission from the ground never looks colder
Emission == \A e \in 1..2 : Of(TRUE, e) <= Of(TRUE, e + 1)
\* without any opacity only the background is seen
Transparent == (\A i \in 2..N : NumEq(tau[i], 0))
                => /\ Close(Of(FALSE, 1), Tcosmic, Eps, 0)
                   /\ Close(Of(TRUE, 3), t[1], Eps, 0)
                   /\ NumEq(Of(TRUE, 1), 0)
\* the total opacity does not depend on the side it is added up from
Total == /\ Close(Atm(TRUE).tau, Sum(tau), Eps, 0)
         /\ Close(Atm(FALSE).tau, Sum(tau), Eps, 0)
\* the mean radiating temperature is one of the atmosphere's
Radiating == Sum(tau) > "1e-08" => \A sat \in BOOLEAN : LET m == Tmr(hvk, Atm(sat)) IN m >= Cold * (1 - Real("1e-6")) /\ m <= Hot * (1 + Real("1e-6"))
(* the recursion is the sum over layers of source times the transmittances *)
(* of its two boundaries                                                    *)
Depth(i) == SumN(i, LAMBDA k: tau[k])
Closed(sat) ==
  SumN(N, LAMBDA i: IF i = 1 THEN Real(0) ELSE
    LET near == IF sat THEN Sum(tau) - Depth(i) ELSE Depth(i - 1)
        src == IF sat THEN LayerSource(B(hvk, t[i]), B(hvk, t[i-1]), tau[i]) ELSE LayerSource(B(hvk, t[i-1]), B(hvk, t[i]), tau[i])
    IN src * Exp(0 - near) * (1 - Exp(0 - tau[i])))
Discretised == \A sat \in BOOLEAN : Close(Atm(sat).rad, Closed(sat), "1e-9", "1e-18")
\* seen from the top is seen from the bottom of the atmosphere turned over
Turned == LET r == Vec(N, LAMBDA i: t[N + 1 - i])
              d == Vec(N, LAMBDA i: IF i = 1 THEN Real(0) ELSE tau[N + 2 - i])
          IN Close(Atm(TRUE).rad, Atmosphere(FALSE, Profile(FALSE, hvk, r, d)).rad, Eps, 0)
=============================================================================
