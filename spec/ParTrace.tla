------------------------------- MODULE ParTrace -------------------------------
(***************************************************************************)
(* Conformance of histories of parameter sets.  Every event carries what   *)
(* the call handed out (a full copy of the set) and `diffs`: the changes   *)
(* of every set handed out earlier since the event before.                 *)
(***************************************************************************)
EXTENDS ParSets, Report
VARIABLES k, done

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Tight == "1e-14"

SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i], Tight, 0)
\* a set handed out against the set wanted, metadata only when the set wanted has it
ChkSet(w, got, want) ==
  IF DOMAIN got # DOMAIN want THEN {w \o "names of the parameters"}
  ELSE UNION {LET g == got[n] s == want[n] IN
         Chk(w \o "value of " \o n, SameSeq(g.value, s.value) /\ g.vs = s.vs)
         \cup Chk(w \o "uncertainty of " \o n, SameSeq(g.uncer, s.uncer) /\ g.us = s.us)
         \cup Chk(w \o "unit or reference of " \o n, "meta" \notin DOMAIN s \/ g.meta = s.meta) : n \in DOMAIN want}

Built(e) == Fold(Len(e.parts), <<>>, LAMBDA acc, i: acc @@ Part(e.parts[i][1], e.parts[i][2]))
BuildOk(e) == \A i \in 1..Len(e.parts) : Supported(e.parts[i][1], e.parts[i][2])

\* what the caller did itself
Own(st, e) ==
  CASE e.op = "edit" -> [st EXCEPT !.sets[e.k] = Edited(@, e.name, e.field, e.i, e.v)]
    [] e.op = "spread" -> [st EXCEPT !.sets[e.k] = Uncertain(@, e.v)]
    [] e.op = "replace" -> [st EXCEPT !.sets[e.k] = [@ EXCEPT ![e.name] = e.par]]
    [] e.op = "set" -> [st EXCEPT !.cur = e.k]
    [] OTHER -> st
OwnDiffs(e) ==
  CASE e.op = "edit" -> <<[k |-> e.k, name |-> e.name, field |-> e.field]>>
    [] e.op = "replace" -> <<[k |-> e.k, name |-> e.name, field |-> "value"], [k |-> e.k, name |-> e.name, field |-> "uncer"],
                             [k |-> e.k, name |-> e.name, field |-> "meta"]>>
    [] OTHER -> <<>>
Quiet(e) ==
  All(Len(e.diffs), LAMBDA i:
    LET d == e.diffs[i] IN
    Chk(e.op \o ": changed " \o d.field \o " of " \o d.name \o " in a set handed out earlier",
        (e.op = "spread" /\ d.k = e.k /\ d.field = "uncer") \/ \E j \in 1..Len(OwnDiffs(e)) : OwnDiffs(e)[j] = [k |-> d.k, name |-> d.name, field |-> d.field]))

\* the answer of the library
Answer(st, e) ==
  CASE e.op = "build" ->
         IF ~BuildOk(e) THEN Chk("a set of a model that does not exist was not refused", e.exc # "")
         ELSE IF e.exc # "" THEN {"build: ended with " \o e.exc}
         ELSE ChkSet("build " \o e.label \o ": ", e.dump, Built(e))
    [] e.op = "perturb" ->
         IF st.cur = 0 \/ (e.mode # "ran" /\ ~CanPerturb(st.sets[st.cur], e.what, e.mode, e.index))
         THEN Chk("perturb " \o e.mode \o ": was not refused", e.exc # "")
         ELSE IF e.mode = "ran" THEN Chk("perturb ran: neither refused nor a draw around the reference",
                e.exc # "" \/ DOMAIN e.dump = DOMAIN st.sets[st.cur])
         ELSE IF e.exc # "" THEN {"perturb " \o e.mode \o ": ended with " \o e.exc}
         ELSE ChkSet("perturb " \o e.mode \o ": ", e.dump, Perturbed(st.sets[st.cur], e.what, e.mode, e.index))
    [] e.op = "run" -> Chk("run: ended with " \o e.exc, e.exc = "")
    [] OTHER -> {}
\* with ONLY=kept nothing but the sets handed out earlier is looked at (C02)
OnlyKept == TLCEval("ONLY" \in DOMAIN IOEnv)
Step(st, e) ==
  LET o == Own(st, e) IN
  [o EXCEPT !.bad = st.bad \cup (IF OnlyKept THEN {} ELSE Answer(st, e)) \cup Quiet(e),
            !.sets = IF e.op \in {"build", "perturb"} /\ e.exc = "" THEN Append(@, e.dump) ELSE @]

Failures(r) == Fold(Len(r.evs), [sets |-> <<>>, cur |-> 0, bad |-> {}], LAMBDA st, i: TLCEval(Step(st, r.evs[i]))).bad

TraceInit == k \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ done' = TRUE /\ UNCHANGED k
TraceConforms ==
  done => LET bad == Failures(Trace[k])
          IN bad = {} \/ (PrintT("BAD " \o ToString(k) \o " " \o ToString(bad)) /\ FALSE)
=============================================================================
