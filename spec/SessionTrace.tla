---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Conformance of recorded histories: every event of a history is a step   *)
(* of Session, and what the real code did at it is what the specification  *)
(* lets happen.  Refs holds, for every key, the result of the shortest     *)
(* history of a process that has it.                                       *)
(*   C01 an execution returns the result of its key                        *)
(*   C02 the caller's inputs and parameter sets stay as they were          *)
(*   C03 results returned earlier stay as they were                        *)
(*   C04 executions are refused exactly when a needed model is missing     *)
(***************************************************************************)
EXTENDS Session, Report, TLC, Json, IOUtils, Num, Sequences, FiniteSets
VARIABLES k, done

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Refs == TLCEval(ndJsonDeserialize(IOEnv.REFS))
Groups == TLCEval({IOEnv.G1, IOEnv.G2, IOEnv.G3, IOEnv.G4})

Names == <<"table", "awet", "adry", "taulaywet", "taulaydry", "taulayliq", "taulayice", "srho", "swet", "sdry", "sliq", "sice">>

Same(w, out, ref) ==
  IF Len(out) # Len(ref) THEN {w \o " another kind of result"}
  ELSE All(Len(out), LAMBDA n: ChkVec(w \o " " \o Names[n], out[n], ref[n], "1e-11", "1e-300"))

RefOf(key) == LET S == {n \in 1..Len(Refs) : DOMAIN Refs[n].key = DOMAIN key /\ Refs[n].key = key}
              IN IF S = {} THEN 0 ELSE CHOOSE n \in S : TRUE

Zero(s) == \A i \in 1..Len(s) : NumEq(s[i], 0)

\* columns 4, 7 and 8 of the table (tmrcld, tauliq, tauice) and the arrays
Column(tab, c) == LET n == Len(tab) \div 9 IN SubSeq(tab, (c - 1) * n + 1, c * n)
Clear(out) == /\ \A n \in {6, 7, 11, 12} : Zero(out[n])
              /\ \A c \in {4, 7, 8} : Zero(Column(out[1], c))

\* clauses of one event, st the state before it
Event(st, ev, n) ==
  LET e == ev.e
      w == "event " \o ToString(n) \o " " \o e.op
      bad == e.op \in {"badnew", "badsat", "bades"}
      exec == e.op = "execute"
      refuse == IF exec THEN Refusals(st, e.obj) ELSE {}
  IN (IF "C02" \in Groups THEN Chk(w \o ": the caller's inputs changed " \o ToString(ev.kept), ev.kept = <<>>) ELSE {})
     \cup (IF "C03" \in Groups
           THEN Chk(w \o ": results returned earlier changed", ev.changed = <<>>)
                \cup (IF exec /\ ev.exc = "" /\ ~st.objs[e.obj].cloudy
                      THEN Chk(w \o ": cloud quantities in a clear run", Clear(ev.out))
                      ELSE {})
           ELSE {})
     \cup (IF "C04" \in Groups
           THEN IF exec
                THEN IF refuse # {} THEN Chk(w \o ": was not refused, or with " \o ev.exc, ev.exc \in refuse)
                     ELSE Chk(w \o ": ended with " \o ev.exc, ev.exc = "")
                ELSE {}
           ELSE {})
     \cup (IF ~exec /\ ~bad THEN Chk(w \o ": ended with " \o ev.exc, ev.exc = "")
           ELSE IF bad THEN Chk(w \o ": was not refused", ev.exc # "") ELSE {})
     \cup (IF "C01" \in Groups
           THEN IF exec /\ refuse = {}
                THEN LET ref == RefOf(Key(st, e.obj))
                     IN IF ref = 0 THEN {"machinery: no reference"}
                        ELSE Chk(w \o ": ended with '" \o ev.exc \o "' but alone with '" \o Refs[ref].exc \o "'", ev.exc = Refs[ref].exc)
                             \cup Same(w, ev.out, Refs[ref].out)
                ELSE IF e.op = "wf"
                THEN LET ref == RefOf([scenwf |-> e.scen, m |-> e.m])
                     IN IF ref = 0 THEN {"machinery: no reference"} ELSE Same(w, ev.out, Refs[ref].out)
                ELSE {}
           ELSE {})

RECURSIVE Walk(_, _, _)
Walk(st, evs, n) ==
  IF n > Len(evs) THEN {}
  ELSE IF ~Enabled(st, evs[n].e) THEN {"machinery: event " \o ToString(n) \o " is not enabled"}
  ELSE LET f == TLCEval(Event(st, evs[n], n))
       IN IF f # {} THEN f ELSE Walk(TLCEval(Step(st, evs[n].e)), evs, n + 1)

TraceInit == k \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ done' = TRUE /\ UNCHANGED k
TraceConforms ==
  done => LET bad == Walk(Start, Trace[k].evs, 1)
          IN bad = {} \/ (PrintT("BAD " \o ToString(k) \o " " \o ToString(bad)) /\ FALSE)
=============================================================================
