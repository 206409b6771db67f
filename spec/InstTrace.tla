------------------------------ MODULE InstTrace ------------------------------
(* Conformance of recorded histories of channel lists: after every event   *)
(* all the lists handed out so far are as the specification has them.      *)
EXTENDS Instruments, Report, Json, IOUtils
VARIABLES k, done

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

GHz(s) == Vec(Len(s), LAMBDA i : s[i] / Real("1e6"))
Answer(st, e) ==
  LET t == Step(st, e) IN
  IF e.op = "ask" /\ ~Known(e.kind, e.name) THEN Chk("unknown " \o e.kind \o " instrument '" \o e.name \o "' was answered: " \o e.exc, e.exc = "ValueError")
  ELSE IF e.exc # "" THEN {e.kind \o " instrument " \o e.name \o " (" \o e.spelling \o ") ended with " \o e.exc}
  ELSE IF Len(e.lists) # Len(t) THEN {"lists handed out"}
  ELSE UNION { ChkVec(IF e.op = "ask" /\ i = Len(t) THEN "channels of " \o e.name \o " (" \o e.spelling \o ")"
                      ELSE "an earlier list after " \o e.op, e.lists[i], GHz(t[i]), "1e-12", "0") : i \in 1..Len(t) }

RECURSIVE Replay(_, _, _)
Replay(s, evs, i) == IF i > Len(evs) THEN {} ELSE LET bad == Answer(s, evs[i]) IN IF bad # {} THEN bad ELSE Replay(Step(s, evs[i]), evs, i + 1)
Failures(r) == Replay(Start, r.evs, 1)

TraceInit == k \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ done' = TRUE /\ UNCHANGED k
TraceConforms ==
  done => LET bad == Failures(Trace[k])
          IN bad = {} \/ (PrintT("BAD " \o ToString(k) \o " " \o ToString(bad)) /\ FALSE)
=============================================================================
