------------------------------ MODULE Weighting ------------------------------
(***************************************************************************)
(* Weighting functions and their figures (C26).  A computation is given by *)
(*   w.z p t rh dz   the profile and the spacing of the height grid (km)   *)
(*   w.frq w.ang     frequencies and elevation angle                       *)
(*   w.sat w.model   seen from space; absorption model                     *)
(***************************************************************************)
EXTENDS Simulation

(* the grid: every dz from height zero, the first level at or above the    *)
(* top of the profile being the last (one more is allowed when the top is  *)
(* a multiple of dz up to rounding)                                        *)
RegularGrid(g, z, dz) ==
  LET top == Fold(Len(z), Real(z[1]), LAMBDA a, i: Max2(a, z[i]))
      n == Len(g)
      eps == dz * Real("1e-6")
  IN /\ n >= 2
     /\ \A i \in 1..n : Close(g[i], (i - 1) * dz, "1e-12", "1e-12")
     /\ g[n] >= top - eps
     /\ g[n] =< top + dz + eps

\* linear interpolation in a rising profile, held constant beyond its ends
Interp(z, x, h) ==
  LET n == Len(z) IN
  IF h =< z[1] THEN Real(x[1])
  ELSE IF h >= z[n] THEN Real(x[n])
  ELSE LET i == CHOOSE i \in 2..n : z[i-1] =< h /\ h < z[i]
       IN x[i-1] + ((x[i] - x[i-1]) / (z[i] - z[i-1])) * (h - z[i-1])
OnGrid(w, x, g) ==
  LET o(s) == Reals(IF Falling(w.z) THEN Rev(s) ELSE s)
      z == TLCEval(o(w.z))
      y == TLCEval(o(x))
  IN TLCEval(Vec(Len(g), LAMBDA i: Interp(z, y, g[i])))

\* the newest oxygen model is always used
OxygenLatest == "R24"
Sim(w, g) ==
  (IF Exact(w) THEN [exact |-> TRUE] ELSE <<>>) @@
  [z |-> g, p |-> OnGrid(w, w.p, g), t |-> OnGrid(w, w.t, g), rh |-> OnGrid(w, w.rh, g), o3n |-> <<>>, iced |-> FALSE, sat |-> w.sat, ray |-> TRUE,
   cloudy |-> FALSE, liq |-> <<>>, ice |-> <<>>, base |-> <<>>, top |-> <<>>, changes |-> <<>>,
   models |-> [h2o |-> w.model, o2 |-> OxygenLatest, n2 |-> w.model, liq |-> w.model, o3 |-> ""]]

(* Weighting functions by frequency: absorption at a level times the       *)
(* transmittance of the layers between it and the observer.  The layer     *)
(* below a level counts as between it and space, and as between it and the *)
(* ground.                                                                 *)
WeightingFunctions(w, g) ==
  LET r == TLCEval(Sim(w, g))
      lv == TLCEval(Levels(r))
      ls == Lists(r)
      n == Len(g)
      ds == TLCEval(Slant(r, lv, w.ang))
  IN Vec(Len(w.frq), LAMBDA j:
       LET wet == WetAbs(r, ls, lv, w.frq[j])
           dry == DryAbs(r, ls, lv, w.frq[j])
           lw == LayerIntegrals(wet, ds, TRUE)
           ld == LayerIntegrals(dry, ds, TRUE)
           up == TLCEval(Scan(n, Real(0), LAMBDA a, i: a + lw[i] + ld[i]))
           tau(i) == IF w.sat THEN up[n] - (IF i = 1 THEN Real(0) ELSE up[i-1]) ELSE up[i]
       IN TLCEval(Vec(n, LAMBDA i: Exp(0 - tau(i)) * (wet[i] + dry[i]))))

(* ------------------------------- figures -------------------------------- *)
\* channels are made of this many frequencies each: their mean curves
MeanCurves(wgt, parts) ==
  LET ends == TLCEval(Scan(Len(parts), 0, LAMBDA a, i: a + parts[i]))
  IN Vec(Len(parts), LAMBDA c:
       Vec(Len(wgt[1]), LAMBDA i: SumN(parts[c], LAMBDA k: wgt[ends[c] - parts[c] + k][i]) / parts[c]))
MeanFrequencies(frq, parts) ==
  LET ends == TLCEval(Scan(Len(parts), 0, LAMBDA a, i: a + parts[i]))
  IN Vec(Len(parts), LAMBDA c: SumN(parts[c], LAMBDA k: frq[ends[c] - parts[c] + k]) / parts[c])
Channels(wgt, parts) == IF parts = <<>> THEN wgt ELSE MeanCurves(wgt, parts)
ChannelFrequencies(frq, parts) == IF parts = <<>> THEN frq ELSE MeanFrequencies(frq, parts)

Largest(s) == Fold(Len(s), s[1], LAMBDA a, i: Max2(a, s[i]))
Normal(s) == LET m == Largest(s) IN Vec(Len(s), LAMBDA i: s[i] / m)
\* seen from space the value of a level is drawn at the level below
Curve(s, sat) == IF sat THEN Tail(s) ELSE s
Heights(g, sat) == IF sat THEN SubSeq(g, 1, Len(g) - 1) ELSE g
\* groups of curves are drawn 0.4 apart
Shifts(groups) ==
  Fold(Len(groups), <<>>, LAMBDA a, i: a \o [k \in 1..groups[i] |-> (i - 1) * Real("0.4")])
=============================================================================
