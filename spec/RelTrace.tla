------------------------------ MODULE RelTrace ------------------------------
(***************************************************************************)
(* Relations between executions.  A record holds one reference execution   *)
(* r.whole (inputs frq, ang; outputs as in SimTrace) and parts: executions *)
(* of variants which must give the same numbers.  Part q simulated the     *)
(* frequencies q.js and the angles q.as of the reference (indices, in any  *)
(* order, possibly repeated).                                              *)
(***************************************************************************)
EXTENDS Num, Report, Sequences, TLC, Json, IOUtils, FiniteSets
VARIABLES k, done

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

Columns == <<"tbtotal", "tbatm", "tmr", "tmrcld", "tauwet", "taudry", "tauliq", "tauice">>
Arrays  == <<"awet", "adry", "taulaywet", "taulaydry", "taulayliq", "taulayice">>
Amounts == <<"srho", "swet", "sdry", "sliq", "sice">>

PartFails(r, q) ==
  LET nf == Len(q.js) na == Len(q.as) wf == Len(r.frq)
      w == r.whole o == q.out
      name(c) == q.label \o " " \o c
  IN IF q.exc # r.exc THEN {q.label \o ": ended with '" \o q.exc \o "' instead of '" \o r.exc \o "'"}
     ELSE IF r.exc # "" THEN {}
     ELSE IF Len(o.tbtotal) # nf * na THEN {name("rows")}
     ELSE
       ChkVec(name("angle"), o.angle, Vec(nf * na, LAMBDA i: r.ang[q.as[((i - 1) \div nf) + 1]]), 0, 0)
       \cup All(Len(Columns), LAMBDA c:
         ChkVec(name(Columns[c]), o[Columns[c]],
                Vec(nf * na, LAMBDA i: w[Columns[c]][(q.as[((i - 1) \div nf) + 1] - 1) * wf + q.js[((i - 1) % nf) + 1]]),
                IF Columns[c] \in {"tmr", "tmrcld"} THEN "1e-8" ELSE q.tol, "1e-250"))   \* quotients of small differences
       \cup (IF o.awet = <<>> THEN {} ELSE
         All(Len(Arrays), LAMBDA c: All(nf, LAMBDA j: All(na, LAMBDA a:
           ChkVec(name(Arrays[c]), o[Arrays[c]][j][a], w[Arrays[c]][q.js[j]][q.as[a]], q.tol, "1e-250"))))
         \cup All(Len(Amounts), LAMBDA c:
           ChkVec(name(Amounts[c]), o[Amounts[c]], Vec(na, LAMBDA a: w[Amounts[c]][q.as[a]]), q.tol, "1e-250")))

Failures(r) == All(Len(r.parts), LAMBDA n: PartFails(r, r.parts[n]))

TraceInit == k \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ done' = TRUE /\ UNCHANGED k
TraceConforms ==
  done => LET bad == Failures(Trace[k])
          IN bad = {} \/ (PrintT("BAD " \o ToString(k) \o " " \o ToString(bad)) /\ FALSE)
=============================================================================
