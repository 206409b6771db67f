----------------------------- MODULE AbsDesign -----------------------------
(***************************************************************************)
(* The specified absorption by itself (C11, C12, C13, C14): every model at *)
(* every pressure and temperature of a grid, walked up in frequency.       *)
(***************************************************************************)
EXTENDS Absorption, Num, Sequences, FiniteSets, TLC, IOUtils
LOCAL INSTANCE Atmos
VARIABLES m, t, p, f, x

Steps == atoi(IOEnv.LEVELS)
Models == WaterModels \cup OxygenModels \cup NitrogenModels
\* from 0.7 to 1000 GHz, closer to one another at the lower end
F(n) == "0.7" * Exp((n * Ln(1000 / Real("0.7"))) / Steps)
DInit == /\ m \in Models /\ t \in {"195", "250", "300"} /\ p \in {"0.2", "80", "1013"} /\ f = 0 /\ x = F(0)
DNext == f < Steps /\ f' = f + 1 /\ x' = F(f + 1) /\ UNCHANGED <<m, t, p>>

\* vapour: none, half and full saturation, at most a quarter of the pressure
Es == Min2(EsWater(t), p / 4)
W(e) == LET tab == TLCEval(WaterTable[m]) v == TLCEval(e) IN WaterAbs(m, tab, t, p, v, x)
O(q, e) == LET tab == TLCEval(OxygenTable[m]) IN OxygenAbs(m, tab, t, q - e, e, x)
N(q) == NitrogenAbs(m, t, q, x)
L(d) == LiquidAbs(m, t, d, x)
Z(n) == LET tab == TLCEval(OzoneTable[m]) q == TLCEval(Real(p)) IN OzoneAbs(m, tab, Real(t), q, x, n)

Water == m \in WaterModels =>
  /\ NumEq(W(0), 0)
  /\ LET a == W(Es / 2) b == W(Es) IN a > 0 /\ b > a
\* the older sums of lines turn negative in the far wings and are cut off there; no other is
Oxygen == m \in OxygenModels =>
  LET a == O(Real(p), 0) IN
  /\ (m # "R98" => a >= 0)
  /\ (m \in {"R20", "R20SD", "R22", "R23", "R24"} => a > 0)
  /\ NumEq(O(Real(0), 0), 0)
Nitrogen == m \in NitrogenModels =>
  /\ N(Real(p)) > 0 /\ NumEq(N(Real(0)), 0)
  \* colliding pairs: twice the pressure, four times the absorption
  /\ Close(N(2 * Real(p)), 4 * N(Real(p)), "1e-12", 0)
Ozone == m \in OzoneModels /\ t = "250" =>
  LET a == Z(Real("3e18"))
      lines == TLCEval(OzoneTable[m]["fl"])
  IN /\ NumEq(Z(Real(0)), 0) /\ Close(Z(Real("6e18")), 2 * a, "1e-12", 0)
     \* lines count within one gigahertz of their centres, and always add
     /\ IF \E k \in 1..Len(lines) : lines[k] >= x - 1 /\ lines[k] <= x + 1 THEN a > 0 ELSE NumEq(a, 0)
\* drops absorb in proportion to their mass, and more the shorter the wave (up to the relaxation)
Liquid == (m \in LiquidModels /\ t # "195") =>
  LET a == L(Real("0.2")) IN
  /\ a > 0 /\ NumEq(L(Real(0)), 0) /\ Close(L(Real("0.4")), 2 * a, "1e-12", 0)
Ice == LET a == IceAbs(Real("0.2"), x) IN a > 0 /\ NumEq(IceAbs(Real(0), x), 0) /\ Close(IceAbs(Real("0.4"), x), 2 * a, "1e-12", 0)
                                          /\ Close(IceAbs(Real("0.2"), 2 * x), 2 * a, "1e-12", 0)
\* a speed-dependent shape and the plain one differ only near the lines: in the windows and wings they are a percent apart
Family == m \in {"R19SD", "R20SD", "R21SD", "R22SD"} /\ p # "0.2" /\ x < 900 =>
  Close(W(Es / 2), WaterAbs(IF m = "R19SD" THEN "R19" ELSE IF m = "R20SD" THEN "R20" ELSE IF m = "R21SD" THEN "R22SD" ELSE "R21SD",
                            WaterTable[IF m = "R19SD" THEN "R19" ELSE IF m = "R20SD" THEN "R20" ELSE IF m = "R21SD" THEN "R22SD" ELSE "R21SD"],
                            t, p, Es / 2, x), "0.3", 0)
=============================================================================
