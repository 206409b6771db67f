---------------------------- MODULE ClimDesign ----------------------------
(* The reference atmospheres themselves, walked upwards in steps of 50 m: *)
(* positive, continuous to the accuracy of the recommendation, pressure   *)
(* strictly decreasing.                                                   *)
EXTENDS Climate, Num, TLC
VARIABLES a, i
Steps == 2000
H(n) == n / Real(20)
T(n) == IF a = "std" THEN StdT(H(n)) ELSE RefT(a, H(n))
P(n) == IF a = "std" THEN StdP(H(n)) ELSE RefP(a, H(n))
W(n) == IF a = "std" THEN StdRho(H(n)) ELSE RefRho(a, H(n))
DInit == a \in Atmospheres \cup {"std"} /\ i = 0
DNext == i < Steps /\ i' = i + 1 /\ UNCHANGED a
Positive == T(i) > 150 /\ T(i) < 320 /\ P(i) > 0 /\ W(i) >= 0
PressureFalls == i = 0 \/ P(i) < P(i-1)
\* 50 m change the temperature by less than 1.5 K and the pressure by less than
\* 1.5 %, but for one step of 19 K that the recommendation itself has
Step19 == a = "mid-summer" /\ i = 1600
Continuous == i = 0 \/ ((Abs(T(i) - T(i-1)) < "1.5" \/ Step19) /\ P(i) > "0.985" * P(i-1))
=============================================================================
