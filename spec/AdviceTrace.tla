----------------------------- MODULE AdviceTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded histories of announcements.  Profs are the      *)
(* profiles used, by kind and variant; an execution also records its least *)
(* absorption and the opacity in front of the first cloud.                 *)
(***************************************************************************)
EXTENDS Simulation, Advice, Report, Json, IOUtils, FiniteSets
VARIABLES k, done

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Profs == TLCEval(ndJsonDeserialize(IOEnv.REFS))
Pick(o) == CHOOSE x \in 1..Len(Profs) : Profs[x].kind = o.kind /\ Profs[x].var = o.var

Doubtful(r) == Len(r.p) < 25 \/ \A i \in 1..Len(r.p) : r.p[i] >= 10
Negative(r) == \E i \in 1..Len(r.rh) : r.rh[i] < 0
Trapped(r) == r.ray /\ ~Negative(r) /\ LET lv == Levels(r) IN \E a \in 1..Len(r.ang) : Ducts(lv.z, lv.n, r.ang[a], lv.z0)

ProfFacts == TLCEval([x \in 1..Len(Profs) |-> [doubtful |-> Doubtful(Profs[x]), negative |-> Negative(Profs[x]), trapped |-> Trapped(Profs[x])]])

Facts(o, ev) ==
  LET q == ProfFacts[Pick(o)] IN
  [doubtful |-> q.doubtful,
   unsound |-> q.negative \/ q.trapped \/ (ev.op = "execute" /\ ev.least < 0),
   deep |-> ev.op = "execute" /\ ev.front > ExpMax]

Event(st, ev, n) ==
  LET o == IF ev.op = "new" THEN Object(ev) ELSE IF "obj" \in DOMAIN ev THEN st.objs[ev.obj] ELSE [kind |-> "sound", var |-> 1]
      w == "event " \o ToString(n) \o " " \o ev.op \o " of a " \o o.kind \o " profile: "
      want == Announced(st, ev, Facts(o, ev))
  IN IF ev.exc # "" THEN {w \o "ended with " \o ev.exc}
     ELSE Chk(w \o (IF want THEN "no warning" ELSE "warned without reason: " \o ev.text), ev.warned = want)

RECURSIVE Walk(_, _, _)
Walk(st, evs, n) ==
  IF n > Len(evs) THEN {}
  ELSE IF ~Enabled(st, evs[n]) THEN {"machinery: event " \o ToString(n) \o " is not enabled"}
  ELSE LET f == TLCEval(Event(st, evs[n], n))
       IN IF f # {} THEN f ELSE Walk(TLCEval(Step(st, evs[n])), evs, n + 1)

\* the kinds are what they are called
Kind(x) ==
  LET r == Profs[x] f == ProfFacts[x] IN
  CASE r.kind \in {"short", "shallow", "both", "downshallow"} -> f.doubtful
    [] r.kind \in {"sound", "down", "deep", "ray"} -> ~f.doubtful /\ ~f.trapped /\ ~f.negative
    [] r.kind = "duct" -> f.trapped
    [] OTHER -> f.negative

TraceInit == k \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ done' = TRUE /\ UNCHANGED k
TraceConforms ==
  done => LET bad == IF \A x \in 1..Len(Profs) : Kind(x) THEN Walk(Start, Trace[k].evs, 1) ELSE {"machinery: a profile is not of its kind"}
          IN bad = {} \/ (PrintT("BAD " \o ToString(k) \o " " \o ToString(bad)) /\ FALSE)
=============================================================================
