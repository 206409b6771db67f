------------------------------- MODULE HttpTrace -------------------------------
(***************************************************************************)
(* Conformance of recorded histories of endpoints: what the server saw and *)
(* how every request ended.                                                *)
(***************************************************************************)
EXTENDS Http, Report, Json, IOUtils
VARIABLES k, done

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

Set(q) == {q[i] : i \in 1..Len(q)}

Answer(s, e) ==
  LET w == e.op \o " " \o e.reply \o ": "
      a == Asked(s, e)
  IN IF ~e.isreq THEN (IF e.exc # "" THEN {e.op \o ": ended with " \o e.exc} ELSE {})
     ELSE (IF Len(e.seen) = 0 THEN {w \o "nothing was asked"}
           ELSE UNION { LET q == e.seen[i] IN
                  Chk(w \o "method", q.method = a.method)
                  \cup Chk(w \o "the library is not identified", q.agent)
                  \cup Chk(w \o "credentials", q.auth = a.auth)
                  \cup Chk(w \o "cookies", Set(q.cookies) = a.cookies)
                  \cup (IF q.moved THEN {} ELSE
                        Chk(w \o "another page was asked for", q.path = a.path)
                        \cup Chk(w \o "another query was asked", Set(q.query) = a.query /\ Len(q.query) = Cardinality(a.query))) : i \in 1..Len(e.seen) })
          \cup (CASE Outcome(e) = "response" ->
                       IF e.exc # "" THEN {w \o "ended with " \o e.exc}
                       ELSE Chk(w \o "body of the response", e.body = e.sent)
                  [] Outcome(e) = "exception" -> Chk(w \o "was not reported", e.exc # "")
                  [] Outcome(e) = "httperror" ->
                       IF e.exc = "" THEN {w \o "was not reported"}
                       ELSE Chk(w \o "reported as " \o e.exc, e.ishttp)
                            \cup Chk(w \o "the error does not carry the status", Status(e.reply) \in Set(e.words))
                            \cup Chk(w \o "the error does not carry the message of the server", e.hasmsg)
                  [] OTHER -> {})

RECURSIVE Replay(_, _, _)
Replay(s, evs, i) ==
  IF i > Len(evs) THEN {}
  ELSE LET e == evs[i] IN Answer(s, e) \cup Replay(Step(s, e), evs, i + 1)
Failures(r) == Replay(Start, r.evs, 1)

TraceInit == k \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ done' = TRUE /\ UNCHANGED k
TraceConforms ==
  done => LET bad == Failures(Trace[k])
          IN bad = {} \/ (PrintT("BAD " \o ToString(k) \o " " \o ToString(bad)) /\ FALSE)
=============================================================================
