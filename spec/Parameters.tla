----------------------------- MODULE Parameters -----------------------------
(***************************************************************************)
(* Spectroscopic parameters as overrides of the line lists.  `changes` is  *)
(* a sequence of [name, idx, value]: entry idx of the named parameter has  *)
(* that value (idx 0: scalars), all other parameters are the model's own.  *)
(* Acting parameters and the coefficient each one is:                      *)
(***************************************************************************)
LOCAL INSTANCE Num
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

WaterCoef == [con_Cf |-> "cf", con_Cs |-> "cs", con_Xf |-> "xcf", con_Xs |-> "xcs",
              FL |-> "fl", S |-> "s1", B2 |-> "b2", gamma_a |-> "w0", gamma_w |-> "w0s",
              n_a |-> "x", n_w |-> "xs", delta_a |-> "sh", delta_w |-> "shs",
              n_da |-> "xh", n_dw |-> "xhs", SR |-> "sr"]
OxygenCoef == [O2FL |-> "f", O2S |-> "s300", O2BE |-> "be", O2gamma |-> "w300", O2gamma_NL |-> "w300",
               WB300 |-> "wb300", X05 |-> "x", Y300 |-> "y300", Y300_NL |-> "y300", O2_V |-> "v",
               O2_V_NL |-> "v", y0 |-> "y0", y1 |-> "y1", dnu0 |-> "dnu0", dnu1 |-> "dnu1"]
OzoneCoef == [O3_FL |-> "fl", O3_S1 |-> "s1", O3_B |-> "b", O3_W |-> "w", O3_X |-> "x", O3_SR |-> "sr"]

\* the lines 35 to 49 have their own parameters (suffix NL)
Weak(i) == i >= 35 /\ i =< 49
OxygenActs(name, i) ==
  IF name \in {"O2gamma_NL", "Y300_NL", "O2_V_NL"} THEN Weak(i)
  ELSE IF name \in {"O2gamma", "O2_V"} THEN ~Weak(i)
  ELSE TRUE
\* Y300 of the models without O2_V has no NL part
OxygenActsIn(name, i, tab) ==
  IF name = "Y300" /\ "v" \in DOMAIN tab THEN ~Weak(i) ELSE OxygenActs(name, i)

Set(tab, coef, i, v) ==
  LET j == IF i = 0 THEN 1 ELSE i
  IN [tab EXCEPT ![coef] = TLCEval(Vec(Len(tab[coef]), LAMBDA n: IF n = j THEN Real(v) ELSE tab[coef][n]))]

\* scale factors of the continuum, used by the oldest models only
Scaled(tab, ch, factor, coef) ==
  LET f == SelectSeq(ch, LAMBDA c: c.name = factor)
  IN IF f = <<>> THEN tab
     ELSE [tab EXCEPT ![coef] = <<tab[coef][1] * f[Len(f)].value>>]

ApplyWater(tab, ch, m) ==
  LET t1 == Fold(Len(ch), tab, LAMBDA acc, n:
              IF ch[n].name \in DOMAIN WaterCoef /\ WaterCoef[ch[n].name] \in DOMAIN acc
              THEN Set(acc, WaterCoef[ch[n].name], ch[n].idx, ch[n].value) ELSE acc)
  IN IF m \in {"R98", "R03", "R16", "R17"}
     THEN Scaled(Scaled(t1, ch, "con_Cf_factr", "cf"), ch, "con_Cs_factr", "cs") ELSE t1

ApplyOxygen(tab, ch, m) ==
  Fold(Len(ch), tab, LAMBDA acc, n:
    IF ch[n].name \in DOMAIN OxygenCoef /\ OxygenCoef[ch[n].name] \in DOMAIN acc
       /\ OxygenActsIn(ch[n].name, ch[n].idx, tab)
    THEN Set(acc, OxygenCoef[ch[n].name], ch[n].idx, ch[n].value) ELSE acc)

ApplyOzone(tab, ch) ==
  Fold(Len(ch), tab, LAMBDA acc, n:
    IF ch[n].name \in DOMAIN OzoneCoef THEN Set(acc, OzoneCoef[ch[n].name], ch[n].idx, ch[n].value) ELSE acc)
=============================================================================
