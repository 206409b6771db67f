------------------------------- MODULE WfTrace -------------------------------
(***************************************************************************)
(* Conformance of histories of weighting functions.  A record holds the    *)
(* profile, the grid of the object and the events with their results.      *)
(***************************************************************************)
EXTENDS Weighting, Report, Json, IOUtils
VARIABLES k, done

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Rtol == "1e-8"

Start(r) == [frq |-> r.lists[2], sat |-> TRUE, ang |-> Real(90), model |-> "R24", band |-> <<>>, labels |-> FALSE, wgt |-> <<>>]
Step(s, e, r) ==
  CASE e.op = "frq" -> [s EXCEPT !.frq = r.lists[e.v], !.band = <<>>]
    [] e.op = "sat" -> [s EXCEPT !.sat = e.v]
    [] e.op = "ang" -> [s EXCEPT !.ang = r.angles[e.v]]
    [] e.op = "model" -> [s EXCEPT !.model = e.v]
    [] e.op = "band" -> [s EXCEPT !.band = e.v]
    [] e.op = "labels" -> [s EXCEPT !.labels = e.v]
    [] e.op = "generate" -> [s EXCEPT !.wgt = e.wgt]
    [] OTHER -> s

At(s, j) == "(" \o NumStr(s.frq[j]) \o " GHz) "
Generated(s, e, r) ==
  IF e.exc # "" THEN {"generate: ended with " \o e.exc}
  ELSE LET w == [z |-> r.z, p |-> r.p, t |-> r.t, rh |-> r.rh, frq |-> s.frq, ang |-> s.ang, sat |-> s.sat, model |-> s.model]
           agree(v) == LET want == TLCEval(WeightingFunctions(v, r.grid)) IN
                         IF Len(e.wgt) # Len(want) THEN {"generate: number of curves"}
                         ELSE All(Len(want), LAMBDA j: ChkVec("weighting function " \o At(s, j), e.wgt[j], want[j], Rtol, "1e-17"))
       IN Either(w, TRUE, agree)

Lines(e) == e.lines
Drawn(s, e, r) ==
  LET grouped == e.op = "grouped"
      w == e.op \o ": "
      src == IF grouped THEN s.wgt ELSE Channels(s.wgt, s.band)
      fq == IF grouped THEN s.frq ELSE ChannelFrequencies(s.frq, s.band)
      y == Heights(r.grid, s.sat)
      shift == IF grouped THEN Shifts(e.groups) ELSE <<>>
      x(j) == LET c == IF ~grouped /\ e.normalized THEN Normal(src[j]) ELSE src[j]
                  q == Curve(c, s.sat)
              IN IF grouped THEN Vec(Len(q), LAMBDA i: q[i] + shift[j]) ELSE q
  IN IF grouped /\ ~s.sat THEN Chk(w \o "was not refused", e.exc # "")
     ELSE IF e.exc # "" THEN {w \o "ended with " \o e.exc}
     ELSE IF Len(e.lines) # Len(src) THEN {w \o "number of curves"}
     ELSE (IF e.lim = <<>> THEN {}
           ELSE ChkVec(w \o "height limits", e.hlim, e.lim, "1e-9", "1e-9")
                \cup ChkVec(w \o "pressures at the height limits", e.plim, Vec(2, LAMBDA i: Interp(r.grid, r.pgrid, e.lim[i])), "1e-9", 0))
          \cup (IF e.xlim = <<>> THEN {} ELSE ChkVec(w \o "limits of the values", e.xgot, e.xlim, "1e-9", "1e-9"))
          \cup Chk(w \o "the heights are not said to be in km", e.inkm)
          \cup Chk(w \o "the pressures are not said to be in hPa", e.inhpa)
          \cup All(Len(src), LAMBDA j:
            ChkVec(w \o "curve " \o ToString(j), e.lines[j].x, x(j), "1e-12", "1e-300")
            \cup ChkVec(w \o "heights of curve " \o ToString(j), e.lines[j].y, y, 0, 0)
            \cup (IF grouped THEN {}
                  ELSE Chk(w \o "the label has another frequency", IsNaN(e.lines[j].frq) \/ Close(e.lines[j].frq, fq[j], 0, "0.0050001"))
                       \cup (IF IsNaN(e.lines[j].peak) THEN {}
                             ELSE LET q == x(j) m == Largest(q) IN
                                  Chk(w \o "the label has another height of the maximum",
                                      \E i \in 1..Len(q) : Close(q[i], m, "1e-12", 0) /\ Close(y[i], e.lines[j].peak, 0, "0.5000001")))
                       \cup (IF e.legend /\ ~s.labels THEN Chk(w \o "the curve has no frequency", ~IsNaN(e.lines[j].frq)) ELSE {})))
          \cup (IF grouped THEN Chk(w \o "labels of the groups", e.texts = r.names[Len(e.groups)])
                ELSE IF ~e.legend THEN {}
                ELSE IF s.labels THEN Chk(w \o "labels of the legend", e.texts = r.names[Len(src)])
                ELSE Chk(w \o "entries of the legend", Len(e.texts) = Len(src)))

Answer(s, e, r) ==
  CASE e.op = "generate" -> Generated(s, e, r)
    [] e.op \in {"plot", "grouped"} -> Drawn(s, e, r)
    [] e.op = "refused" -> Chk("a wrong value of " \o e.v \o " was accepted", e.exc # "")
    [] OTHER -> Chk(e.op \o ": ended with " \o e.exc, e.exc = "")
\* e.kept: neither the profile, the frequencies nor any result was changed by the event
Kept(e) == Chk(e.op \o ": changed data of the caller or an earlier result", e.kept)

\* with ONLY=kept nothing but the data of the caller is looked at (C02)
OnlyKept == TLCEval("ONLY" \in DOMAIN IOEnv)
RECURSIVE Replay(_, _, _)
Replay(s, r, i) ==
  IF i > Len(r.evs) THEN {}
  ELSE Answer(s, r.evs[i], r) \cup Kept(r.evs[i]) \cup Replay(TLCEval(Step(s, r.evs[i], r)), r, i + 1)
Failures(r) ==
  IF r.exc # "" THEN {"ended with " \o r.exc}
  ELSE IF OnlyKept THEN All(Len(r.evs), LAMBDA i: Kept(r.evs[i]))
  ELSE IF ~RegularGrid(r.grid, r.z, r.dz) THEN {"the heights are not a regular grid over the profile"}
  ELSE LET w == [z |-> r.z] IN
       ChkVec("temperature on the grid", r.tgrid, OnGrid(w, r.t, r.grid), "1e-12", 0)
       \cup ChkVec("pressure on the grid", r.pgrid, OnGrid(w, r.p, r.grid), "1e-12", 0)
       \cup ChkVec("humidity on the grid", r.rhgrid, OnGrid(w, r.rh, r.grid), "1e-12", "1e-18")
       \cup Replay(Start(r), r, 1)

TraceInit == k \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ done' = TRUE /\ UNCHANGED k
TraceConforms ==
  done => LET bad == Failures(Trace[k])
          IN bad = {} \/ (PrintT("BAD " \o ToString(k) \o " " \o ToString(bad)) /\ FALSE)
=============================================================================
