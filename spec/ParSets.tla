------------------------------- MODULE ParSets -------------------------------
(***************************************************************************)
(* Spectroscopic parameter sets (C15).  A set maps the name of a parameter *)
(* to [value, uncer, vs, us, meta]: value and uncertainty as sequences, vs *)
(* and us telling whether they are scalars, meta its unit, reference and   *)
(* description.  The state of the library is the sets handed out so far,   *)
(* in order, and the number of the current one (0: none).  A set is        *)
(* changed by its owner only; building and perturbing hand out new sets.   *)
(***************************************************************************)
EXTENDS Num, Sequences, TLC, Json, IOUtils, FiniteSets
LOCAL INSTANCE Absorption

Scalar(v, u) == [value |-> <<v>>, uncer |-> <<u>>, vs |-> TRUE, us |-> TRUE]
Vector(v, n) == [value |-> v, uncer |-> [i \in 1..n |-> 0], vs |-> FALSE, us |-> FALSE]
Mixed(v)     == [value |-> v, uncer |-> <<0>>, vs |-> FALSE, us |-> TRUE]
One(v, n)    == IF n = 1 THEN Scalar(v[1], 0) ELSE Vector(v, n)

\* the reference sets: the model's own coefficients, widths and shifts in MHz/mb as tabulated
OldWater == {"R98", "R03", "R16", "R17"}
WaterSet(m) ==
  LET t == WaterTable[m]
      n == Len(t.fl)
      V(v) == Vector(v, n)
  IN [con_Cf |-> Scalar(t.cf[1], 0), con_Cs |-> Scalar(t.cs[1], 0), con_Xf |-> Scalar(t.xcf[1], 0), con_Xs |-> Scalar(t.xcs[1], 0),
      FL |-> V(t.fl), S |-> V(t.s1), B2 |-> Mixed(t.b2), gamma_a |-> V(t.w0), gamma_w |-> V(t.w0s),
      n_a |-> V(t.x), n_w |-> V(t.xs), wv_nS |-> Scalar(0, 0)]
     @@ (IF m \in OldWater
         THEN [con_Cf_factr |-> Scalar("1.11", Sqrt(("0.098" ^ 2) + ("0.03" ^ 2))), con_Cs_factr |-> Scalar("0.79", Sqrt(("0.17" ^ 2) + ("0.06" ^ 2)))]
         ELSE [con_Cf_factr |-> Scalar(1, 0), con_Cs_factr |-> Scalar(1, 0), n_da |-> V(t.xh), n_dw |-> V(t.xhs),
               delta_a |-> V(t.sh), delta_w |-> V(t.shs)])
     @@ (IF m \in OldWater /\ m # "R98" THEN [SR |-> V(t.sr)] ELSE <<>>)
OxygenSet(m) ==
  LET t == OxygenTable[m]
      V(v) == Vector(v, Len(t.f))
  IN [O2FL |-> Mixed(t.f), O2S |-> V(t.s300), O2BE |-> Mixed(t.be), O2gamma |-> V(t.w300), O2gamma_NL |-> Mixed(t.w300),
      Snr |-> Scalar("1.6e-17", 0), WB300 |-> Scalar(t.wb300[1], 0), X11 |-> Scalar("0.785", 0), X16 |-> Scalar("0.765", 0),
      X05 |-> Scalar(t.x[1], 0), O2_nS |-> Scalar(2, 0), w2a |-> Scalar("1.2", 0)]
     @@ (IF "v" \in DOMAIN t THEN [O2_V |-> V(t.v), O2_V_NL |-> Mixed(t.v), Y300 |-> V(t.y300), Y300_NL |-> Mixed(t.y300)]
         ELSE IF "y300" \in DOMAIN t THEN [Y300 |-> V(t.y300), y1 |-> Mixed(t.y1), dnu0 |-> Mixed(t.dnu0), dnu1 |-> Mixed(t.dnu1)]
         ELSE [y0 |-> Mixed(t.y0), y1 |-> Mixed(t.y1), dnu0 |-> Mixed(t.dnu0), dnu1 |-> Mixed(t.dnu1)])
OzoneSet(m) ==
  LET t == OzoneTable[m]
      V(v) == Vector(v, Len(t.fl))
  IN [O3_FL |-> V(t.fl), O3_S1 |-> V(t.s1), O3_B |-> V(t.b), O3_W |-> V(t.w), O3_X |-> V(t.x), O3_SR |-> V(t.sr)]
Part(kind, m) == CASE kind = "water" -> WaterSet(m) [] kind = "oxygen" -> OxygenSet(m) [] kind = "ozone" -> OzoneSet(m)
Supported(kind, m) == CASE kind = "water" -> m \in WaterModels [] kind = "oxygen" -> m \in OxygenModels [] kind = "ozone" -> m \in OzoneModels

(* ----------------------------- transitions ------------------------------ *)
El(s, scalar, i) == IF scalar THEN s[1] ELSE s[i]
\* the requested entries: index is 0-based, -1 for all of them; a scalar has one entry
Hit(par, index, i) == par.vs \/ index = -1 \/ i = index + 1
Shifted(par, sign, index) ==
  [par EXCEPT !.value = Vec(Len(par.value), LAMBDA i:
     IF Hit(par, index, i) THEN par.value[i] + (sign * El(par.uncer, par.us, i)) ELSE Real(par.value[i]))]
Names(set, what) == IF what = <<>> THEN DOMAIN set ELSE {what[i] : i \in 1..Len(what)}
CanPerturb(set, what, mode, index) ==
  /\ mode \in {"max", "min", "non"}
  /\ Names(set, what) \subseteq DOMAIN set
  /\ mode = "non" \/ \A n \in Names(set, what) : set[n].vs \/ index < Len(set[n].value)
Perturbed(set, what, mode, index) ==
  LET sign == CASE mode = "max" -> 1 [] mode = "min" -> -1 [] OTHER -> 0
  IN [n \in DOMAIN set |-> IF n \in Names(set, what) /\ sign # 0 THEN Shifted(set[n], sign, index) ELSE set[n]]
Uncertain(set, f) ==
  [n \in DOMAIN set |-> LET par == set[n] IN
     [par EXCEPT !.uncer = Vec(Len(par.uncer), LAMBDA i: f * (Abs(par.value[i]) + "1e-3"))]]
Edited(set, name, field, i, v) ==
  LET par == set[name]
      s == IF field = "value" THEN par.value ELSE par.uncer
      t == Vec(Len(s), LAMBDA j: IF j = i THEN Real(v) ELSE Real(s[j]))
  IN [set EXCEPT ![name] = IF field = "value" THEN [par EXCEPT !.value = t] ELSE [par EXCEPT !.uncer = t]]
=============================================================================
