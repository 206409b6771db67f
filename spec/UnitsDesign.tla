---------------------------- MODULE UnitsDesign ----------------------------
(***************************************************************************)
(* The specified conversions by themselves: air of one temperature is      *)
(* moistened step by step from dry to saturated (C25).                *)
(***************************************************************************)
EXTENDS Units, Num, Sequences, TLC, IOUtils
LOCAL INSTANCE Atmos
LOCAL INSTANCE Transfer
VARIABLES i, j, p

Fine == atoi(IOEnv.LEVELS)          \* humidity steps from dry to saturated
T(n) == 183 + n                     \* kelvin
Steps == 147
t == T(i)
rh(n) == n / Real(Fine)
e == VapourPressure(t, rh(j))

DInit == i \in 0..Steps /\ j = 0 /\ p \in {"1013.25", "500", "20"}
\* only while there is less water than air
DNext == /\ j < Fine
         /\ VapourPressure(t, rh(j + 1)) < "0.9" * p
         /\ j' = j + 1 /\ UNCHANGED <<i, p>>

E(n) == VapourPressure(t, rh(n))
w == E2Mr(p, e)
Rel == "1e-11"

\* there and back again
MixingRatio == Close(Mr2E(p, w), e, Rel, 0) /\ Close(E2Mr(p, Mr2E(p, w)), w, Rel, 0)
Density == Close(Rho2Mr(Mr2Rho(w, t, p), t, p), w, Rel, "1e-12")
Humidity == Close(Mr2Rh1(p, t, w, <<>>), 100 * rh(j), Rel, "1e-9")
Temperature == Close(ToKelvin(ToCelsius(t)), t, Rel, 0)
Height == LET h == 75 * i IN Close(P2H(H2P(h, Lapse), Lapse), h, "1e-7", "1e-6")
Brightness == \A hvk \in {Hvk(1), Hvk(183), Hvk(1000)} : Close(InvB(hvk, B(hvk, t)), t, "1e-9", 0)
\* more water is more of every measure of it
Increasing == j = 0 \/ LET d == E(j - 1) v == E2Mr(p, d) IN
  /\ e > d /\ w > v
  /\ VapourDensity(t, e) > VapourDensity(t, d)
  /\ Mr2Rh1(p, t, w, <<>>) > Mr2Rh1(p, t, v, <<>>) 
  \* there is no saturated mixing ratio where saturated vapour alone exceeds the pressure
  /\ (Svp(t) < p => Mr2Rh2(p, t, w, <<>>) > Mr2Rh2(p, t, v, <<>>))
  /\ Mr2Rho(w, t, p) > Mr2Rho(v, t, p)
  /\ VirtualT(t, w / 1000) > VirtualT(t, v / 1000) /\ VirtualT(t, w / 1000) >= t * (1 - Real(Rel))
  /\ AirDensity(w / 1000, p, t) < AirDensity(v / 1000, p, t)
  /\ WetN(t, e) > WetN(t, d)
\* dry air is dry in every measure, saturated air saturated in both definitions
Ends == /\ (j = 0 => NumEq(w, 0) /\ NumEq(Mr2Rh1(p, t, w, <<>>), 0) /\ NumEq(Mr2Rh2(p, t, w, <<>>), 0) /\ Close(VirtualT(t, w), t, Rel, 0))
        /\ (j = Fine => Close(Mr2Rh1(p, t, w, <<>>), 100, Rel, 0) /\ Close(Mr2Rh2(p, t, w, <<>>), 100, Rel, 0))
\* saturation rises with temperature, is lower over ice and meets at the freezing point
Saturation == /\ i = 0 \/ (Svp(t) > Svp(T(i - 1)) /\ SvpIce(t) > SvpIce(T(i - 1)))
              /\ (t <= 273 => SvpIce(t) < Svp(t) * "1.002")
              /\ Close(SvpIce("273.15"), Svp("273.15"), "2e-3", 0)
              /\ (IcedVapourPressure(t, 1) <= EsWater(t) * "1.002")
\* the dew point of saturated air is its temperature; both formulas agree above freezing
Dew == LET c == ToCelsius(t) IN
       /\ Close(DewArm(c, c), 1, Rel, 0) /\ Close(DewTetens(c, c, FALSE), 1, Rel, 0)
       /\ (c >= 0 => Close(DewArm(c - 3, c), DewTetens(c - 3, c, FALSE), "2e-2", 0))
\* thickness adds up layer by layer and grows with temperature and water
Thick == LET a == Thickness(<<p, "0.8" * p, "0.5" * p>>, <<t, t, t>>, <<>>)
             b == Thickness(<<"0.8" * p, "0.5" * p>>, <<t, t>>, <<>>)
             m == Thickness(<<p, "0.5" * p>>, <<t, t>>, <<w / 1000, w / 1000>>)
         IN /\ a[1] = Real(0) /\ a[2] > 0
            /\ Close(a[3] - a[2], b[2], "1e-9", 0)
            /\ m[2] >= a[3] * (1 - Real("1e-9"))
=============================================================================
