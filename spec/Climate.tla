------------------------------ MODULE Climate ------------------------------
(***************************************************************************)
(* Reference atmospheres of Recommendation ITU-R P.835-6, as functions of  *)
(* latitude, season and height (km), and the extrapolation of a measured   *)
(* profile with them.                                                      *)
(***************************************************************************)
LOCAL INSTANCE Num
LOCAL INSTANCE Atmos
LOCAL INSTANCE Units
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

Poly(c, h) == Fold(Len(c), Real(0), LAMBDA acc, n: (acc * h) + c[(Len(c) + 1) - n])
Lin(a, slope, h0, h) == a + (slope * (h - h0))

(* ---------------- global standard atmosphere (Annex 1, section 1) ------- *)
Geopotential(h) == ("6356.766" * h) / ("6356.766" + h)

StdT(h) ==
  LET g == Geopotential(h) IN
  CASE g =< 11 -> Lin("288.15", "-6.5", 0, g)
    [] g > 11 /\ g =< 20 -> Real("216.65")
    [] g > 20 /\ g =< 32 -> Lin("216.65", 1, 20, g)
    [] g > 32 /\ g =< 47 -> Lin("228.65", "2.8", 32, g)
    [] g > 47 /\ g =< 51 -> Real("270.65")
    [] g > 51 /\ g =< 71 -> Lin("270.65", "-2.8", 51, g)
    [] g > 71 /\ h < 86 -> Lin("214.65", "-2.0", 71, g)
    [] h >= 86 /\ h =< 91 -> Real("186.8673")
    [] h > 91 /\ h =< 100 -> "263.1905" - ("76.3232" * Sqrt(1 - (((h - 91) / "19.9429") ^ 2)))

StdP(h) ==
  LET g == Geopotential(h)
      C == Real("34.1632")
      Grad(p0, t0, l, h0) == p0 * ((t0 / (t0 + (l * (g - h0)))) ^ (C / l))
      Iso(p0, t0, h0) == p0 * Exp((-C * (g - h0)) / t0)
  IN
  CASE g =< 11 -> Grad(Real("1013.25"), Real("288.15"), Real("-6.5"), 0)
    [] g > 11 /\ g =< 20 -> Iso(Real("226.3226"), Real("216.65"), 11)
    [] g > 20 /\ g =< 32 -> Grad(Real("54.74980"), Real("216.65"), Real(1), 20)
    [] g > 32 /\ g =< 47 -> Grad(Real("8.680422"), Real("228.65"), Real("2.8"), 32)
    [] g > 47 /\ g =< 51 -> Iso(Real("1.109106"), Real("270.65"), 47)
    [] g > 51 /\ g =< 71 -> Grad(Real("0.6694167"), Real("270.65"), Real("-2.8"), 51)
    [] g > 71 /\ h < 86 -> Grad(Real("0.03956649"), Real("214.65"), Real("-2.0"), 71)
    [] h >= 86 /\ h =< 100 -> Exp(Poly(<<"95.571899", "-4.011801", "6.424731e-2", "-4.789660e-4", "1.340543e-6">>, h))

\* (84.852 geopotential km and 86 km are the same height)
StdDefined(h) == h >= 0 /\ h =< 100

StdRho(h) == "7.5" * Exp(-h / 2)
StdE(h) == (StdRho(h) * StdT(h)) / "216.7"

(* -------------- latitude bands and seasons (sections 2, 3, 4) ------------ *)
Band(lat) == IF Abs(lat) < 22 THEN "low" ELSE IF Abs(lat) < 45 THEN "mid" ELSE "high"
\* low latitudes have one atmosphere
Atm(lat, season) == IF Band(lat) = "low" THEN "low" ELSE Band(lat) \o "-" \o season
Atmospheres == {"low", "mid-summer", "mid-winter", "high-summer", "high-winter"}

RefT(a, h) ==
  CASE a = "low" ->
         IF h < 17 THEN Poly(<<"300.4222", "-6.3533", "0.005886">>, h) ELSE IF h < 47 THEN Lin(194, "2.533", 17, h)
         ELSE IF h < 52 THEN Real(270) ELSE IF h < 80 THEN Lin(270, "-3.0714", 52, h) ELSE Real(184)
    [] a = "mid-summer" ->
         IF h < 13 THEN Poly(<<"294.9838", "-5.2159", "-0.07109">>, h) ELSE IF h < 17 THEN Real("215.15")
         ELSE IF h < 47 THEN "215.15" * Exp("0.008128" * (h - 17)) ELSE IF h < 53 THEN Real(275)
         ELSE IF h < 80 THEN 275 + (20 * (1 - Exp("0.06" * (h - 53)))) ELSE Real(175)
    [] a = "mid-winter" ->
         IF h < 10 THEN Poly(<<"272.7241", "-3.6217", "-0.1759">>, h) ELSE IF h < 33 THEN Real(218)
         ELSE IF h < 47 THEN Lin(218, "3.3571", 33, h) ELSE IF h < 53 THEN Real(265)
         ELSE IF h < 80 THEN Lin(265, "-2.0370", 53, h) ELSE Real(210)
    [] a = "high-summer" ->
         IF h < 10 THEN Poly(<<"286.8374", "-4.7805", "-0.1402">>, h) ELSE IF h < 23 THEN Real(225)
         ELSE IF h < 48 THEN 225 * Exp("0.008317" * (h - 23)) ELSE IF h < 53 THEN Real(277)
         ELSE IF h < 79 THEN Lin(277, "-4.0769", 53, h) ELSE Real(171)
    [] a = "high-winter" ->
         IF h < "8.5" THEN Poly(<<"257.4345", "2.3474", "-1.5479", "0.08473">>, h) ELSE IF h < 30 THEN Real("217.5")
         ELSE IF h < 50 THEN Lin("217.5", "2.125", 30, h) ELSE IF h < 54 THEN Real(260)
         ELSE Lin(260, "-1.667", 54, h)

\* pressure: a parabola to 10 km, then two exponentials
PressureOf == [a \in Atmospheres |->
  CASE a = "low" -> [c |-> <<"1012.0306", "-109.0338", "3.6316">>, p10 |-> "284.8526", p72 |-> "0.0313660", k1 |-> "-0.147", k2 |-> "-0.165"]
    [] a = "mid-summer" -> [c |-> <<"1012.8186", "-111.5569", "3.8646">>, p10 |-> "283.7096", p72 |-> "0.03124022", k1 |-> "-0.147", k2 |-> "-0.165"]
    [] a = "mid-winter" -> [c |-> <<"1018.8627", "-124.2954", "4.8307">>, p10 |-> "258.9787", p72 |-> "0.02851702", k1 |-> "-0.147", k2 |-> "-0.155"]
    [] a = "high-summer" -> [c |-> <<"1008.0278", "-113.2494", "3.9408">>, p10 |-> "269.6138", p72 |-> "0.04582115", k1 |-> "-0.140", k2 |-> "-0.165"]
    [] a = "high-winter" -> [c |-> <<"1010.8828", "-122.2411", "4.554">>, p10 |-> "243.8718", p72 |-> "0.02685355", k1 |-> "-0.147", k2 |-> "-0.150"]]
RefP(a, h) ==
  LET q == PressureOf[a] IN
  IF h =< 10 THEN Poly(q.c, h)
  ELSE IF h =< 72 THEN q.p10 * Exp(q.k1 * (h - 10)) ELSE q.p72 * Exp(q.k2 * (h - 72))

\* water vapour density: exponential of a polynomial up to a ceiling
VapourOf == [a \in Atmospheres |->
  CASE a = "low" -> [r |-> "19.6542", c |-> <<0, "-0.2313", "-0.1122", "0.01351", "-0.0005923">>, top |-> 15]
    [] a = "mid-summer" -> [r |-> "14.3542", c |-> <<0, "-0.4174", "-0.02290", "0.001007">>, top |-> 15]
    [] a = "mid-winter" -> [r |-> "3.4742", c |-> <<0, "-0.2697", "-0.03604", "0.0004489">>, top |-> 10]
    [] a = "high-summer" -> [r |-> "8.988", c |-> <<0, "-0.3614", "-0.005402", "-0.001955">>, top |-> 15]
    [] a = "high-winter" -> [r |-> "1.2319", c |-> <<0, "0.07481", "-0.0981", "0.00281">>, top |-> 10]]
RefRho(a, h) == LET q == VapourOf[a] IN IF h =< q.top THEN q.r * Exp(Poly(q.c, h)) ELSE Real(0)

(* ------------------------------ extrapolation --------------------------- *)
\* summer and winter of the hemisphere; anything else is the global standard
Season(lat, month) ==
  LET jja == month \in {6, 7, 8}
      djf == month \in {12, 1, 2}
  IN IF (lat > 20 /\ jja) \/ (lat < -20 /\ djf) THEN "summer"
     ELSE IF (lat > 20 /\ djf) \/ (lat < -20 /\ jja) THEN "winter" ELSE "standard"

ExtT(lat, month, h) == LET s == Season(lat, month) IN IF s = "standard" THEN StdT(h) ELSE RefT(Atm(lat, s), h)
ExtP(lat, month, h) == LET s == Season(lat, month) IN IF s = "standard" THEN StdP(h) ELSE RefP(Atm(lat, s), h)
ExtRho(lat, month, h) == LET s == Season(lat, month) IN IF s = "standard" THEN StdRho(h) ELSE RefRho(Atm(lat, s), h)
ExtRh(lat, month, h) ==
  Rho2Rh1(ExtRho(lat, month, h), ExtT(lat, month, h), ExtP(lat, month, h)) / 100
=============================================================================
