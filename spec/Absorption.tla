----------------------------- MODULE Absorption -----------------------------
(***************************************************************************)
(* Gas and liquid absorption (Np/km) of the Rosenkranz model family and of *)
(* MWL24, by species.  t in K; pressures p (total), pd (dry), e (vapour)   *)
(* in hPa; f in GHz.  A line list is a record of sequences, one entry per  *)
(* line; WaterTable, OxygenTable and OzoneTable hold the published ones.   *)
(***************************************************************************)
LOCAL INSTANCE Num
LOCAL INSTANCE Cplx
LOCAL INSTANCE Atmos
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils

WaterModels  == {"R98", "R03", "R16", "R17", "R18", "R19", "R19SD", "R20", "R20SD",
                 "R21SD", "R22SD", "R23SD", "R24", "MWL24"}
OxygenModels == {"R98", "R03", "R16", "R17", "R18", "R19", "R19SD", "R20", "R20SD", "R22", "R23", "R24"}
OzoneModels  == {"R18", "R22", "R23"}
NitrogenModels == {"R98", "R03", "R16", "R17", "R18", "R19", "R19SD", "R20", "R20SD", "R21SD",
                   "R22", "R22SD", "R23", "R23SD", "R24", "MWL24"}
LiquidModels == {"R98", "R03", "R16", "R17", "R18", "R19", "R19SD", "R20", "R20SD", "R21SD",
                 "R22", "R22SD", "R23", "R23SD", "R24", "MWL24"}

DataDir == IOEnv.VERIF_DIR \o "/data/"
Reals(s) == TLCEval(Vec(Len(s), LAMBDA i: Real(s[i])))
RealTable(t) == TLCEval([k \in DOMAIN t |-> Reals(t[k])])
LoadTable(file, models) ==
  LET raw == JsonDeserialize(DataDir \o file)
  IN TLCEval([m \in models |-> RealTable(raw[m])])
WaterTable  == LoadTable("h2o.json", WaterModels)
OxygenTable == LoadTable("o2.json", OxygenModels)
OzoneTable  == LoadTable("o3.json", OzoneModels)

\* one-entry sequences hold the scalars of a list
Sc(tab, name) == tab[name][1]

(* ----------------------------- water vapour ----------------------------- *)
SpeedDependent == {"R19SD", "R20SD", "R21SD", "R22SD", "R23SD", "R24", "MWL24"}
FreeSpeedDep   == {"R21SD", "R22SD", "R23SD", "R24", "MWL24"}   \* width2 with its own T exponents and shifts
ShiftByWidth   == {"R03", "R16", "R17"}                         \* shift = ratio * width
MtCkd          == {"R23SD", "R24"}                              \* tabulated self continuum
VapourGasConst == (Real("0.01") * "8.31451") / "18.01528"

(* MT_CKD 4.1 self continuum, cubic interpolation every 10 cm-1 *)
MtS == <<"2.877e-21", "2.855e-21", "2.731e-21", "2.49e-21", "2.178e-21", "1.863e-21">>
MtT == <<"6.413", "6.414", "6.275", "6.049", "5.789", "5.557">>
MtCkdSelf(t, f) ==
  LET th == 296 / t
      v(k) == "6.532e+12" * MtS[k] * th ^ (MtT[k] + 3)
      at(i) == IF i = 0 THEN v(2) ELSE v(i)      \* mirrored below zero frequency
      fj == f / "299.792458"
      j == Min2(Floor(fj), 4)
      q == fj - j
      c == (3 - 2 * q) * q * q
      b == "0.5" * q * (1 - q)
      b1 == b * (1 - q)
      b2 == b * q
  IN (at(j+1) * (1 - c + b2)) - (at(j) * b1) + (at(j+2) * (c + b1)) - (at(j+3) * b2)

(* Water dimer continuum of MWL24 (Tretyakov 2025), per hPa^2, Np/km *)
VirialB == <<"-7.804242E+6", "8.345651E+4", "-4.212794E+2", "1.242946", "-2.409822E-3",
             "3.017768E-6", "-2.518957E-9", "1.350628E-12", "-4.134191E-16", "5.530774E-20">>
DimerSelf(t, f) ==
  LET bt == (-((100 / t) ^ 6)) * SumN(10, LAMBDA i: VirialB[i] * (Real(t) ^ (i - 1)))
      kb == "4.7856E-4" * Exp("1669.8" / t - "5.10485E-3" * t)      \* bound dimers, 1/atm
      km == ((bt - "30.5") / ("82.05746" * t) - kb) / "1013.25"     \* metastable, 1/hPa
      kbd == kb / "1013.25"
      bound == (("5.55E-8" / ("434.8" ^ 2 + (f - "219.5") ^ 2)) + ("4.93E-10" / ("21.06" ^ 2 + Real(f) ^ 2))
                 + "1.34E-14") * (268 / t) ^ 10
      mono == ("1.E-13" * ("4.06" + "7.12E-3" * f)) / "1013.25"
      meta == (mono * "0.3" * (266 / t) ^ "2.9" + ("0.7" * bound) / kbd) * km
      wing == "8.5E-15" * Real(f) ^ "2.2" * (296 / t) ^ "1.5"
  IN ((bound + meta) * Real(f) ^ 2 + wing) * "1E5"

VapourOf(m, ev) ==   \* partial pressure as each model recovers it from the density
  LET rhoT == ev / VapourGasConst      \* density * temperature
  IN IF m \in {"R98", "R03", "R16", "R17"} THEN rhoT / 217
     ELSE IF m \in {"R22SD", "R23SD", "R24", "MWL24"} THEN RvapHpa * rhoT
     ELSE rhoT / "216.68"

WaterContinuum(m, L, t, p, ev, f) ==
  LET pv == VapourOf(m, ev)
      pda == p - pv
      tc == Sc(L, "reftcon") / t
      tl == Sc(L, "reftline") / t
  IN IF m \in {"R98", "R03"}
     THEN ("5.43e-10" * pda * tc ^ 3 + "1.8e-08" * pv * tc ^ "7.5") * pv * f * f
     ELSE IF m = "MWL24"
     THEN DimerSelf(t, f) * pv * pv + "7.1e-10" * (300 / t) ^ "4.4" * Real(f) ^ "1.96" * pda * pv
     ELSE IF m \in MtCkd
     THEN LET self == IF Sc(L, "cs") > 0 THEN Sc(L, "cs") * tl ^ Sc(L, "xcs") ELSE MtCkdSelf(t, f)
          IN (Sc(L, "cf") * tl ^ Sc(L, "xcf") * pda + self * pv) * pv * f * f
     ELSE (Sc(L, "cf") * pda * tc ^ Sc(L, "xcf") + Sc(L, "cs") * pv * tc ^ Sc(L, "xcs")) * pv * f * f

\* pressure broadening and shift of line i
WaterWidths(m, L, i, ti, pda, pv) ==
  LET wf == (L["w0"][i] / 1000) * pda * ti ^ L["x"][i]
      ws == (L["w0s"][i] / 1000) * pv * ti ^ L["xs"][i]
      tiln == Ln(ti)
      aair == IF "aair" \in DOMAIN L THEN 1 - L["aair"][i] * tiln ELSE 1
      aself == IF "aself" \in DOMAIN L THEN 1 - L["aself"][i] * tiln ELSE 1
      shift == IF m = "R98" THEN Real(0)
               ELSE IF m = "R03" THEN L["sr"][i] * (wf + ws)
               ELSE IF m \in ShiftByWidth THEN L["sr"][i] * wf
               ELSE (L["sh"][i] / 1000) * pda * aair * ti ^ L["xh"][i]
                  + (L["shs"][i] / 1000) * pv * aself * ti ^ L["xhs"][i]
      w2 == IF m \notin SpeedDependent THEN Real(0)
            ELSE IF m \in FreeSpeedDep
            THEN IF L["w2"][i] > 0
                 THEN (L["w2"][i] / 1000) * pda * ti ^ L["xw2"][i] + (L["w2s"][i] / 1000) * pv * ti ^ L["xw2s"][i]
                 ELSE Real(0)
            ELSE (L["w2"][i] / 1000) * pda + (L["w2s"][i] / 1000) * pv
      d2 == IF m \in FreeSpeedDep THEN (L["d2"][i] / 1000) * pda + (L["d2s"][i] / 1000) * pv
            ELSE IF m = "R20SD" /\ i = 2 THEN Sc(L, "d2air") * pda + Sc(L, "d2self") * pv
            ELSE Real(0)
  IN [w |-> wf + ws, shift |-> shift, w2 |-> w2, d2 |-> d2]

(* Shape of one resonance at detuning df, minus the value at 750 GHz       *)
(* (Clough's local line); zero beyond 750 GHz.                             *)
Base(w) == w / (562500 + w * w)
Lorentz(df, w) == IF Abs(df) < 750 THEN w / (df * df + w * w) - Base(w) ELSE Real(0)
SdShape(df, w, w2, d2) ==
  LET den == C(w2, -d2)
      xc == CDiv(C(w - "1.5" * w2, df + "1.5" * d2), den)
      xr == CSqrt(xc)
      px == CScale("1.77245385090551603", CMul(xr, CError(-xr.im, xr.re)))
      sd == CDiv(CScale(2, CSub(C(1, 0), px)), den)
  IN sd.re - Base(w)
WaterShape(q, fl, f) ==
  LET lo == f - fl - q.shift
      hi == f + fl + q.shift
  IN (IF q.w2 > 0 /\ Abs(lo) < 10 * q.w THEN SdShape(lo, q.w, q.w2, q.d2) ELSE Lorentz(lo, q.w))
     + Lorentz(hi, q.w)

WaterLineSum(m, L, t, p, ev, f) ==
  LET pv == VapourOf(m, ev)
      pda == p - pv
      ti == Sc(L, "reftline") / t
      ti25 == ti ^ "2.5"
  IN SumN(Len(L["fl"]), LAMBDA i:
       LET q == TLCEval(WaterWidths(m, L, i, ti, pda, pv))
           s == L["s1"][i] * ti25 * Exp(L["b2"][i] * (1 - ti))
       IN s * WaterShape(q, L["fl"][i], f) * (f / L["fl"][i]) ^ 2)

WaterLines(m, L, t, p, ev, f) ==
  LET rho == ev / (VapourGasConst * t)
      sum == WaterLineSum(m, L, t, p, ev, f)
  IN IF m \in {"R22SD", "R23SD", "R24"} THEN ("1.e-10" * rho * sum) / (Pi * "2.9915075E-23")
     ELSE "3.1831e-05" * (IF m \in {"R98", "R03", "R16"} THEN "3.335e+16" ELSE "3.344e+16") * rho * sum

WaterAbs(m, L, t, p, ev, f) ==
  IF NumEq(ev, 0) THEN Real(0) ELSE WaterLines(m, L, t, p, ev, f) + WaterContinuum(m, L, t, p, ev, f)

(* -------------------------------- oxygen -------------------------------- *)
\* strong 60 GHz band lines (numbers 2 to 38) couple to one another
InBand(k) == k >= 2 /\ k =< 38
OxyVapour(m, ev) ==
  LET rhoT == ev / VapourGasConst
  IN IF m \in {"R98", "R03", "R16", "R17", "R18"} THEN rhoT / 217
     ELSE IF m \in {"R22", "R23", "R24"} THEN "4.615228e-3" * rhoT ELSE rhoT / "216.68"

OxyDen(m, L, th, pda, pv) ==
  "0.001" * (IF m = "R98" THEN (pda + "1.1" * pv) * th
             ELSE IF m = "R03" THEN pda * th ^ "0.9" + "1.1" * pv * th
             ELSE pda * th ^ Sc(L, "x") + (IF m = "R16" THEN "1.1" ELSE "1.2") * pv * th)

\* nonresonant term
Debye(f, w) == w / (Real(f) * f + w * w)

\* strength of line k relative to 300 K
OxyStrength(L, k, th) == L["s300"][k] * Exp(-(L["be"][k] * (th - 1)))

\* mixing lines: w half width, y first-order mixing, g second-order, fc centre
MixNear(f, fc, w, g, y) == (w * g + (f - fc) * y) / ((f - fc) ^ 2 + w * w)
MixFar(f, fc, w, g, y)  == (w * g - (f + fc) * y) / ((f + fc) ^ 2 + w * w)

\* first-order mixing, coefficients y300 and v
FirstOrderSum(m, L, th, p, den, f) ==
  SumN(Len(L["f"]), LAMBDA k:
    LET w == L["w300"][k] * den
        y == (IF m \in {"R98", "R03"} THEN "0.001" * p * th ^ Sc(L, "x") ELSE den)
               * (L["y300"][k] + L["v"][k] * (th - 1))
    IN OxyStrength(L, k, th) * (MixNear(f, L["f"][k], w, 1, y) + MixFar(f, L["f"][k], w, 1, y))
         * (f / L["f"][k]) ^ 2)

\* second-order mixing, y0/y1, g0/g1, dnu0/dnu1 (R16, R20, R20SD, R22)
SecondOrderSum(L, th, den, f) ==
  SumN(Len(L["f"]), LAMBDA k:
    LET w == L["w300"][k] * den
        y == den * (L["y0"][k] + L["y1"][k] * (th - 1))
        fc == L["f"][k] + den * den * (L["dnu0"][k] + L["dnu1"][k] * (th - 1))
        g == 1 + den * den * (L["g0"][k] + L["g1"][k] * (th - 1))
    IN OxyStrength(L, k, th) * (MixNear(f, fc, w, g, y) + MixFar(f, fc, w, g, y)) * (f / L["f"][k]) ^ 2)

\* speed-dependent 118 GHz line with first-order mixing
SdNear(f, fc, w, g, y) ==
  LET w2 == "0.076" * w
      xr == CSqrt(CScale(1 / w2, C(w - "1.5" * w2, f - fc)))
      px == CScale("1.77245385090551603", CMul(xr, CError(-xr.im, xr.re)))
      s == CScale(2 / w2, CSub(C(1, 0), px))
  IN CMul(C(1, y), s).re
NearShape(k, f, fc, w, g, y) ==
  IF k = 1 /\ Abs(f - fc) < 10 * w THEN SdNear(f, fc, w, g, y) ELSE MixNear(f, fc, w, g, y)

Nonres == "1.584e-17"

(* Band with second-order mixing and a speed-dependent 118 GHz line (R23,  *)
(* R24): a strengths over f^2, y and g mixing coefficients, den broadening *)
(* pressure, pe mixing pressure; clipped after the band when clip.         *)
BandSum(L, a, y, g, th, den, pe, f, start, clip) ==
  Fold(Len(L["f"]), start, LAMBDA acc, k:
    LET w == L["w300"][k] * den
        yk == pe * y[k]
        gf == IF InBand(k) THEN 1 + pe * pe * g[k] ELSE Real(1)
        fc == L["f"][k] + pe * pe * (L["dnu0"][k] + L["dnu1"][k] * (th - 1))
        s == acc + a[k] * (NearShape(k, f, fc, w, gf, yk) + MixFar(f, fc, w, gf, yk))
    IN IF clip /\ k = 38 THEN Max2(s, Real(0)) ELSE s)

SumR23(L, th, den, f) ==
  LET n == Len(L["f"])
      a == TLCEval(Vec(n, LAMBDA k: OxyStrength(L, k, th) / (L["f"][k] ^ 2)))
      g0 == TLCEval(Vec(n, LAMBDA k: L["g0"][k] + L["g1"][k] * (th - 1)))
      off == SumN(37, LAMBDA k: a[k+1] * g0[k+1]) / SumN(37, LAMBDA k: a[k+1])
      g == TLCEval(Vec(n, LAMBDA k: g0[k] - off))
      y == TLCEval(Vec(n, LAMBDA k: L["y300"][k] + L["y1"][k] * (th - 1)))
      wnr == Sc(L, "wb300") * den
  IN \* the mixing pressure is 0.99 of the broadening pressure
     BandSum(L, a, y, g, th, den, "0.99" * den, f, (Nonres / th) * Debye(f, wnr), TRUE)

SumR24(L, th, den, f) ==
  LET n == Len(L["f"])
      a == TLCEval(Vec(n, LAMBDA k: (OxyStrength(L, k, th) * th) / (L["f"][k] ^ 2)))
      y0 == TLCEval(Vec(n, LAMBDA k: "0.99" * (L["y300"][k] + L["y1"][k] * (th - 1))))
      g0 == TLCEval(Vec(n, LAMBDA k: L["g0"][k] + L["g1"][k] * (th - 1)))
      bias == (Nonres * Sc(L, "wb300") + SumN(38, LAMBDA k: 2 * a[k] * (L["w300"][k] + y0[k] * L["f"][k])))
                / (2 * SumN(37, LAMBDA k: a[k+1]))
      ratio == SumN(37, LAMBDA k: a[k+1] * g0[k+1]) / SumN(37, LAMBDA k: a[k+1] ^ 2)
      y == TLCEval(Vec(n, LAMBDA k: IF InBand(k) THEN y0[k] - bias / L["f"][k] ELSE y0[k]))
      g == TLCEval(Vec(n, LAMBDA k: IF InBand(k) THEN g0[k] - a[k] * ratio ELSE g0[k]))
  IN BandSum(L, a, y, g, th, den, den, f, Nonres * Debye(f, Sc(L, "wb300") * den), FALSE)

\* dry continuum that the older models return apart from the lines
OxyContinuumApart == {"R98", "R03", "R16", "R17", "R18"}

OxygenLines(m, L, t, pd, ev, f) ==
  LET th == 300 / t
      p == pd + ev
      pv == OxyVapour(m, ev)
      pda == p - pv
      den == OxyDen(m, L, th, pda, pv)
      nr == (Nonres * f * f * Debye(f, Sc(L, "wb300") * den)) / th
  IN IF m \in {"R98", "R03"}
     THEN LET o == ("5.034e+11" * FirstOrderSum(m, L, th, p, den, f) * pda * th ^ 3) / "3.14159"
          IN IF m = "R98" THEN o ELSE Max2(o, Real(0))
     ELSE IF m \in {"R17", "R18", "R19", "R19SD"}
     THEN Max2("1.6097e+11" * (FirstOrderSum(m, L, th, p, den, f)
            + (IF m \in OxyContinuumApart THEN 0 ELSE nr)) * pda * th ^ 3, Real(0))
     ELSE IF m = "R23" THEN Max2("1.6097e+11" * SumR23(L, th, den, f) * pda * f * f * th ^ 3, Real(0))
     ELSE IF m = "R24" THEN Max2("1.6097e+11" * SumR24(L, th, den, f) * pda * (f * th) ^ 2, Real(0))
     ELSE (IF m \in {"R20", "R20SD", "R22"} THEN "1.004" ELSE 1)
          * Max2("1.6097e+11" * (SecondOrderSum(L, th, den, f)
            + (IF m \in OxyContinuumApart THEN 0 ELSE nr)) * pda * th ^ 3, Real(0))

OxygenContinuum(m, L, t, pd, ev, f) ==
  LET th == 300 / t
      p == pd + ev
      pv == OxyVapour(m, ev)
      pda == p - pv
      den == OxyDen(m, L, th, pda, pv)
      db == (Real(f) * f * Debye(f, Sc(L, "wb300") * den)) / th
  IN IF m \in {"R98", "R03"} THEN ("1.6e-17" * db * "5.034e+11" * pda * th ^ 3) / "3.14159"
     ELSE IF m \in OxyContinuumApart THEN Nonres * db * "1.6097e11" * pda * th ^ 3
     ELSE Real(0)

OxygenAbs(m, L, t, pd, ev, f) == OxygenLines(m, L, t, pd, ev, f) + OxygenContinuum(m, L, t, pd, ev, f)

(* ------------------------------- nitrogen ------------------------------- *)
N2Poly(c, f) == SumN(4, LAMBDA i: c[i] * (Real(f) ^ (i - 1)))
NitrogenMwl24(t, pd, f) ==
  LET d == 108 / ("0.6950354549" * t)
      dr == 108 / ("0.6950354549" * 300)
      pot == (Exp(d) - (1 + d)) / (Exp(dr) - (1 + dr))
      torr == pd * "0.7500616827"
      shape == "1.754e-18" * "0.5" * (1 + ("1.033" * (1 + "0.1510" / (1 + ((f - 358) / 127) ^ 2)))
                                        / (1 + ((f - 44) / 568) ^ 2)
                                      + "0.1420" * Exp(-((f / 92 - 1) ^ 2)))
      m0 == N2Poly(<<"1.4359", "-0.0005385", "1.6182e-7", "1.8845e-10">>, f)
      aa == N2Poly(<<"0.07988", "-0.0005165", "1.131e-6", "-5.738e-10">>, f)
      ti == 300 / t
  IN "0.84" * "1E5" * shape * ti ^ (m0 + aa * Ln(ti)) * pot * torr ^ 2 * Real(f) ^ 2

NitrogenAbs(m, t, pd, f) ==
  LET th == 300 / t
      roll == "0.5" + "0.5" / (1 + (f / 450) ^ 2)
      CIA(l, x, n, fd) == n * l * fd * pd * pd * f * f * th ^ x
  IN IF m = "MWL24" THEN NitrogenMwl24(t, pd, f)
     ELSE IF m = "R98" THEN CIA("6.4e-14", "3.55", 1, 1)
     ELSE IF m = "R03" THEN CIA("6.5e-14", "3.6", "1.29", roll)
     ELSE IF m \in {"R16", "R17", "R18", "R19", "R19SD"} THEN CIA("6.5e-14", "3.6", "1.34", roll)
     ELSE CIA("9.95e-14", "3.22", 1, roll)

(* --------------------------------- ozone -------------------------------- *)
OzoneAbs(m, L, t, p, f, n) ==
  LET ti == Sc(L, "reftline") / t
      Near(k) == L["fl"][k] >= f - 1 /\ L["fl"][k] =< f + 1
      Term(k) ==
        LET wc == L["w"][k] * p * ti ^ L["x"][k]
            s == L["s1"][k] * Exp(L["b"][k] * (1 - ti))
        IN IF m = "R22"
           THEN LET bd == ".62065e-7" * L["fl"][k] * Sqrt(t)
                IN (s * CError((L["fl"][k] - f) / bd, wc / bd).re) / bd
           ELSE LET w == "0.5346" * wc + Sqrt("0.2166" * wc * wc + "0.6931" * "3.85e-15" * t * L["fl"][k] ^ 2)
                IN (s * (f / L["fl"][k]) ^ 2 * w) / ((f - L["fl"][k]) ^ 2 + w * w)
      sum == SumN(Len(L["fl"]), LAMBDA k: IF Near(k) THEN Term(k) ELSE Real(0))
  IN IF NumEq(n, 0) THEN Real(0)
     ELSE (IF m = "R22" THEN ".56419e-4" ELSE "3.183e-05") * sum * (1 - Exp(-1008 / Real(t))) * ti ^ "2.5" * "1e-06" * n

(* --------------------------- suspended liquid --------------------------- *)
DielOld(m, t, f) ==     \* double Debye, Liebe
  LET th == 1 - 300 / t
      e0 == "77.66" - "103.3" * th
      e1 == "0.0671" * e0
      e2 == Real("3.52")
      fp == IF m = "R03" THEN "20.1" * Exp("7.88" * th) ELSE (316 * th + "146.4") * th + "20.2"
      fs == "39.8" * fp
  IN CAdd(CAdd(CDiv(C(e0 - e1, 0), C(1, f / fp)), CDiv(C(e1 - e2, 0), C(1, f / fs))), C(e2, 0))

DielNew(t, f) ==        \* Patek, Ellison, Rosenkranz 2015
  LET tc == t - "273.15"
      th == 300 / t
      static == "-43.7527" * th ^ "0.05" + "299.504" * th ^ "1.47" - "399.364" * th ^ "2.11" + "221.327" * th ^ "2.31"
      z == C(0, f)
      dl == "80.69715" * Exp(-tc / "226.45")
      s1 == "1164.023" * Exp(-("651.4728" / (tc + "133.07")))
      debye == CDiv(CScale(dl, z), CAdd(C(s1, 0), z))
      d2 == "4.008724" * Exp(-tc / "103.05")
      f1 == "10.46012" + "0.1454962" * tc + "0.063267156" * tc ^ 2 + "0.00093786645" * tc ^ 3
      z1 == CScale(f1, C("-0.75", 1))
      z2 == C(-4500, 2000)
      cn == CLn(CDiv(z2, z1))
      chip == CDiv(CScale(d2 / 2, CLn(CDiv(CSub(z, z2), CSub(z, z1)))), cn)
      chij == CDiv(CScale(d2 / 2, CLn(CDiv(CSub(z, CConj(z2)), CSub(z, CConj(z1))))), CConj(cn))
  IN CAdd(CSub(C(static, 0), debye), CSub(CAdd(chip, chij), C(d2, 0)))

LiquidAbs(m, t, den, f) ==
  IF den =< 0 THEN Real(0) ELSE
  LET eps == IF m \in {"R98", "R03"} THEN DielOld(m, t, f) ELSE DielNew(t, f)
      re == CDiv(CSub(eps, C(1, 0)), CAdd(eps, C(2, 0)))
  IN "-0.06286" * re.im * f * den

(* ice crystals (Westwater 1972), wavelength in cm *)
IceAbs(den, f) ==
  IF den =< 0 THEN Real(0)
  ELSE ("8.18645" / ((LightSpeed * 100) / (f * "1e9"))) * den * "0.000959553" * Db2Np
=============================================================================
