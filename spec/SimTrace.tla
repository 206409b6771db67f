------------------------------ MODULE SimTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded simulations.  A record r holds the inputs of a  *)
(* simulation (see Simulation), the class of the exception it ended with   *)
(* ("" if none) and, in r.out, what it returned: the columns of the table  *)
(* and the arrays of the dictionary, absent arrays being <<>>.             *)
(* r.clauses lists the clause groups to decide for that record.            *)
(***************************************************************************)
EXTENDS Simulation, Report, Json, IOUtils, FiniteSets
VARIABLES k, done

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

Rtol == "1e-8"
Tiny == "1e-25"

NF(r) == Len(r.frq)
NA(r) == Len(r.ang)
NL(r) == Len(r.z)
Row(r, a, j) == (a - 1) * NF(r) + j
At(r, a, j) == "(" \o NumStr(r.frq[j]) \o " GHz, " \o NumStr(r.ang[a]) \o " deg) "

\* layer opacities of channel j at angle a, as returned
TauLayers(r, a, j) ==
  TLCEval(Vec(NL(r), LAMBDA i: r.out.taulaywet[j][a][i] + r.out.taulaydry[j][a][i]
                             + r.out.taulayliq[j][a][i] + r.out.taulayice[j][a][i]))

Sound(s) == \A i \in 1..Len(s) : IsFinite(s[i])

(* shape of the result: one row per angle and frequency, angle by angle *)
Shape(r) ==
  LET n == NF(r) * NA(r) IN
  Chk("shape.rows", \A c \in {"tbtotal", "tbatm", "tmr", "tmrcld", "tauwet", "taudry", "tauliq", "tauice", "angle"} :
                      Len(r.out[c]) = n)
  \cup Chk("shape.arrays", \A c \in {"awet", "adry", "taulaywet", "taulaydry", "taulayliq", "taulayice"} :
             Len(r.out[c]) = NF(r) /\ \A j \in 1..NF(r) : Len(r.out[c][j]) = NA(r)
                  /\ \A a \in 1..NA(r) : Len(r.out[c][j][a]) = NL(r))
  \cup Chk("shape.amounts", \A c \in {"srho", "swet", "sdry", "sliq", "sice"} : Len(r.out[c]) = NA(r))
ShapeOk(r) == Shape(r) = {}

AngleColumn(r) == ChkVec("angle", r.out.angle, Vec(NF(r) * NA(r), LAMBDA i: r.ang[((i - 1) \div NF(r)) + 1]), 0, 0)

(* brightness temperatures from the layer opacities of the result (C05) *)
TransferOf(r, lv, a, j) ==
  LET tau == TauLayers(r, a, j)
      hvk == TLCEval(Hvk(r.frq[j]))
      prof == TLCEval(Profile(r.sat, hvk, lv.t, tau))
      atm == Atmosphere(r.sat, prof)
      w == At(r, a, j)
      i == Row(r, a, j)
      slack == "1e-8" + "1e-14" / Max2(atm.tau, Real("1e-300"))
  IN IF ~Sound(tau) THEN {}
     ELSE ChkNum("tbtotal " \o w, r.out.tbtotal[i], Tb(r.sat, hvk, lv.t, r.es[j], atm), Rtol, 0)
          \cup ChkNum("tbatm " \o w, r.out.tbatm[i], TbAtm(hvk, atm), Rtol, Tiny)
          \cup (IF NumEq(atm.tau, 0) THEN {} ELSE ChkNum("tmr " \o w, r.out.tmr[i], Tmr(hvk, atm), slack, 0))
          \cup (IF r.cloudy /\ r.base # <<>>
                THEN LET b == CloudBase(r, lv)[1]
                         u == CloudTop(r, lv)[1]
                         T == Abs(prof[u].tau - prof[b].tau)
                         near == IF r.sat THEN prof[u].tau ELSE prof[b].tau
                     IN IF prof[b].tau > ExpMax THEN ChkNum("tmrcld " \o w, r.out.tmrcld[i], "nan", 0, 0)
                        ELSE IF b = u \/ T < "1e-12" THEN {}
                        ELSE ChkNum("tmrcld " \o w, r.out.tmrcld[i], CloudTmr(r.sat, hvk, prof, b, u),
                               "1e-8" + ("1e-13" * (1 + atm.tau) * Exp(near)) / T, 0)
                ELSE ChkNum("tmrcld " \o w, r.out.tmrcld[i], 0, 0, 0))
TransferClauses(r, lv) == All(NA(r), LAMBDA a: All(NF(r), LAMBDA j: TransferOf(r, lv, a, j)))

(* opacities from the absorption profiles of the result (C06, C07) *)
OpacityOf(r, lv, ds, a, j) ==
  LET w == At(r, a, j)
      i == Row(r, a, j)
      Lay(x, z) == LayerIntegrals(x, ds, z)
      wet == TLCEval(Lay(r.out.awet[j][a], TRUE))
      dry == TLCEval(Lay(r.out.adry[j][a], TRUE))
  IN ChkVec("taulaywet " \o w, r.out.taulaywet[j][a], wet, Rtol, Tiny)
     \cup ChkVec("taulaydry " \o w, r.out.taulaydry[j][a], dry, Rtol, Tiny)
     \cup ChkNum("tauwet " \o w, r.out.tauwet[i], Sum(wet), Rtol, Tiny)
     \cup ChkNum("taudry " \o w, r.out.taudry[i], Sum(dry), Rtol, Tiny)
     \cup ChkNum("sum of taulayliq " \o w, r.out.tauliq[i], Sum(r.out.taulayliq[j][a]), Rtol, Tiny)
     \cup ChkNum("sum of taulayice " \o w, r.out.tauice[i], Sum(r.out.taulayice[j][a]), Rtol, Tiny)
OpacityClauses(r, lv) ==
  All(NA(r), LAMBDA a:
    LET ds == TLCEval(Slant(r, lv, r.ang[a])) IN All(NF(r), LAMBDA j: OpacityOf(r, lv, ds, a, j)))

AmountClauses(r, lv) ==
  LET rho == VapourProfile(lv)
      wn == WetNProfile(lv)
      dn == DryNProfile(lv)
  IN All(NA(r), LAMBDA a:
       LET ds == TLCEval(Slant(r, lv, r.ang[a]))
           w == "(" \o NumStr(r.ang[a]) \o " deg) "
       IN ChkNum("srho " \o w, r.out.srho[a], Cm(PathIntegral(rho, ds, TRUE)), Rtol, Tiny)
          \cup ChkNum("swet " \o w, r.out.swet[a], Cm(PathIntegral(wn, ds, TRUE)), Rtol, Tiny)
          \cup ChkNum("sdry " \o w, r.out.sdry[a], Cm(PathIntegral(dn, ds, TRUE)), Rtol, Tiny))

(* clouds (C09) *)
CloudClauses(r, lv) ==
  IF ~r.cloudy
  THEN Chk("clear run with cloud quantities",
         /\ \A i \in 1..Len(r.out.tauliq) : NumEq(r.out.tauliq[i], 0) /\ NumEq(r.out.tauice[i], 0)
         /\ \A a \in 1..NA(r) : NumEq(r.out.sliq[a], 0) /\ NumEq(r.out.sice[a], 0)
         /\ \A j \in 1..NF(r) : \A a \in 1..NA(r) : \A i \in 1..NL(r) :
              NumEq(r.out.taulayliq[j][a][i], 0) /\ NumEq(r.out.taulayice[j][a][i], 0))
  ELSE All(NA(r), LAMBDA a:
    LET ds == TLCEval(Slant(r, lv, r.ang[a]))
        b == CloudBase(r, lv)
        u == CloudTop(r, lv)
        w == "(" \o NumStr(r.ang[a]) \o " deg) "
    IN ChkNum("sliq " \o w, r.out.sliq[a], CloudAmount(lv.liq, ds, b, u), Rtol, Tiny)
       \cup ChkNum("sice " \o w, r.out.sice[a], CloudAmount(lv.ice, ds, b, u), Rtol, Tiny)
       \cup All(NF(r), LAMBDA j:
              ChkVec("taulayliq " \o At(r, a, j), r.out.taulayliq[j][a],
                     LayerIntegrals(LiqAbs(r, lv, r.frq[j]), ds, FALSE), Rtol, Tiny)
              \cup ChkVec("taulayice " \o At(r, a, j), r.out.taulayice[j][a],
                     LayerIntegrals(FrozenAbs(lv, r.frq[j]), ds, FALSE), Rtol, Tiny)))

(* absorption profiles (C11, C12, C13, C16) *)
WetClauses(r, lv) ==
  LET ls == Lists(r) IN
  All(NF(r), LAMBDA j: LET x == WetAbs(r, ls, lv, r.frq[j])
                       IN All(NA(r), LAMBDA a: ChkVec("awet " \o At(r, a, j), r.out.awet[j][a], x, Rtol, "1e-20")))
DryClauses(r, lv) ==
  LET ls == Lists(r) IN
  All(NF(r), LAMBDA j: LET x == DryAbs(r, ls, lv, r.frq[j])
                       IN All(NA(r), LAMBDA a: ChkVec("adry " \o At(r, a, j), r.out.adry[j][a], x, Rtol, "1e-17")))

(* physical bounds (C14) *)
MaxOf(s) == Fold(Len(s), s[1], LAMBDA acc, i: Max2(acc, s[i]))
MinOf(s) == Fold(Len(s), s[1], LAMBDA acc, i: Min2(acc, s[i]))
NonNegative(name, s) == Chk(name \o " negative", \A i \in 1..Len(s) : s[i] >= 0)
BoundClauses(r, lv) ==
  LET hot == Max2(MaxOf(lv.t), Tcosmic)
  IN All(NA(r), LAMBDA a: All(NF(r), LAMBDA j:
       LET i == Row(r, a, j)
           w == At(r, a, j)
           tau == TauLayers(r, a, j)
           total == r.out.tauwet[i] + r.out.taudry[i] + r.out.tauliq[i] + r.out.tauice[i]
           hvk == Hvk(r.frq[j])
           sky == InvB(hvk, B(hvk, Tcosmic) * Exp(-total))
           tb == r.out.tbtotal[i]
       IN NonNegative("awet " \o w, r.out.awet[j][a]) \cup NonNegative("adry " \o w, r.out.adry[j][a])
          \cup NonNegative("taulay " \o w, tau)
          \cup ChkNum("total opacity " \o w, total, Sum(tau), Rtol, Tiny)
          \cup Chk("tbtotal out of bounds " \o w \o NumStr(tb), tb >= 0 /\ tb =< hot * (1 + Real("1e-9")))
          \cup Chk("tbatm out of bounds " \o w \o NumStr(r.out.tbatm[i]),
                   r.out.tbatm[i] >= 0 /\ r.out.tbatm[i] =< hot * (1 + Real("1e-9")))
          \cup Chk("atmosphere brighter than the total " \o w, r.out.tbatm[i] =< tb * (1 + Real("1e-9")))
          \cup (IF total > "1e-6" THEN Chk("tmr outside the profile " \o w \o NumStr(r.out.tmr[i]),
                   total > ExpMax \/ (r.out.tmr[i] >= MinOf(lv.t) * (1 - Real("1e-6")) /\ r.out.tmr[i] =< hot * (1 + Real("1e-6"))))
                ELSE {})
          \cup (IF r.sat THEN {} ELSE Chk("below the attenuated cosmic background " \o w, tb >= sky * (1 - Real("1e-9"))))
          \cup (IF total > 60 /\ NumEq(MaxOf(lv.t), MinOf(lv.t))
                THEN ChkNum("isothermal opaque " \o w, tb, lv.t[1], "1e-6", 0) ELSE {})))

(* end to end: brightness temperatures from the inputs alone (C04, C08, C10, C16) *)
EndToEnd(r, lv) ==
  LET ls == Lists(r) IN
  All(NA(r), LAMBDA a:
    LET ds == TLCEval(Slant(r, lv, r.ang[a])) IN
    All(NF(r), LAMBDA j:
      LET f == r.frq[j]
          lay == TLCEval(LET wet == LayerIntegrals(WetAbs(r, ls, lv, f), ds, TRUE)
                             dry == LayerIntegrals(DryAbs(r, ls, lv, f), ds, TRUE)
                             liq == IF r.cloudy THEN LayerIntegrals(LiqAbs(r, lv, f), ds, FALSE) ELSE <<>>
                             ice == IF r.cloudy THEN LayerIntegrals(FrozenAbs(lv, f), ds, FALSE) ELSE <<>>
                         IN Vec(NL(r), LAMBDA i: wet[i] + dry[i] + (IF r.cloudy THEN liq[i] + ice[i] ELSE 0)))
          hvk == TLCEval(Hvk(f))
          prof == TLCEval(Profile(r.sat, hvk, lv.t, lay))
          atm == Atmosphere(r.sat, prof)
          i == Row(r, a, j)
      IN ChkNum("end-to-end tbtotal " \o At(r, a, j), r.out.tbtotal[i], Tb(r.sat, hvk, lv.t, r.es[j], atm), "1e-7", 0)
         \cup ChkNum("end-to-end tbatm " \o At(r, a, j), r.out.tbatm[i], TbAtm(hvk, atm), "1e-7", Tiny)))

(* more emissivity never gives a lower upwelling temperature, a longer     *)
(* plane-parallel path never less opacity (C14)                            *)
Total(r, i) == r.out.tauwet[i] + r.out.taudry[i] + r.out.tauliq[i] + r.out.tauice[i]
OrderClauses(r) ==
  (IF r.sat
   THEN All(NA(r), LAMBDA a: All(NF(r), LAMBDA j: All(NF(r), LAMBDA m:
          IF NumEq(r.frq[j], r.frq[m]) /\ r.es[j] =< r.es[m]
          THEN Chk("emissivity order " \o At(r, a, j),
                   r.out.tbtotal[Row(r, a, j)] =< r.out.tbtotal[Row(r, a, m)] * (1 + Real("1e-12")))
          ELSE {})))
   ELSE {})
  \cup (IF r.ray THEN {}
        ELSE All(NF(r), LAMBDA j: All(NA(r), LAMBDA a: All(NA(r), LAMBDA b:
          IF Sin(Deg(r.ang[a])) =< Sin(Deg(r.ang[b]))
          THEN Chk("opacity order " \o At(r, a, j), Total(r, Row(r, a, j)) >= Total(r, Row(r, b, j)) * (1 - Real("1e-12")))
          ELSE {}))))

Group(r, lv, g) ==
  CASE g = "transfer" -> TransferClauses(r, lv)
    [] g = "opacity"  -> OpacityClauses(r, lv)
    [] g = "amounts"  -> AmountClauses(r, lv)
    [] g = "cloud"    -> CloudClauses(r, lv)
    [] g = "wet"      -> WetClauses(r, lv)
    [] g = "dry"      -> DryClauses(r, lv)
    [] g = "bounds"   -> BoundClauses(r, lv)
    [] g = "order"    -> OrderClauses(r)
    [] g = "kept"     -> {}
    [] g = "angle"    -> AngleColumn(r)
    [] g = "total"    -> EndToEnd(r, lv)

Failures(r) ==
  LET refuse == Refusals(r) IN
  Chk("the arguments of the simulation were changed", "kept" \in DOMAIN r => r.kept) \cup
  IF ~Monotonic(Reals(r.z)) THEN Chk("non-monotonic heights were not refused", r.exc # "")
  ELSE IF r.exc # "" THEN Chk("ended with " \o r.exc, r.exc \in refuse)
  ELSE IF refuse # {} THEN {"was not refused"}
  ELSE IF ~ShapeOk(r) THEN Shape(r)
  ELSE LET lv == TLCEval(Levels(r)) IN Either(r, r.ray, LAMBDA q: All(Len(q.clauses), LAMBDA g: Group(q, lv, q.clauses[g])))

TraceInit == k \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ done' = TRUE /\ UNCHANGED k
TraceConforms ==
  done => LET bad == Failures(Trace[k])
          IN bad = {} \/ (PrintT("BAD " \o ToString(k) \o " " \o ToString(bad)) /\ FALSE)
=============================================================================
