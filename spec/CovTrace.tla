------------------------------ MODULE CovTrace ------------------------------
(***************************************************************************)
(* The covariance matrices the library hands out, and the variances of     *)
(* combinations of parameters computed with them.  A record holds the      *)
(* matrix r.m of a name and combinations r.combos: coefficients v with the *)
(* variance var that a caller obtains from the matrix.                     *)
(***************************************************************************)
EXTENDS Covariance, Report
VARIABLES k, done

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

Square(r) == Len(r.m) = SizeOf(r.name) /\ \A i \in 1..Len(r.m) : Len(r.m[i]) = SizeOf(r.name)
Failures(r) ==
  IF r.exc # "" THEN {"ended with " \o r.exc}
  ELSE IF ~Square(r) THEN {"not a matrix of all the parameters"}
  ELSE LET c == Cov[r.name] n == SizeOf(r.name) IN
    \* the variances to the digits published, the covariances as correlations:
    \* the published matrices are symmetric to this precision only
    ChkVec("variances", Vec(n, LAMBDA i: r.m[i][i]), Vec(n, LAMBDA i: Variance(c, i)), "1e-9", "1e-300")
    \cup All(n, LAMBDA i: LET s(j) == Sqrt(Variance(c, i)) * Sqrt(Variance(c, j)) IN
      ChkVec("row " \o ToString(i), Vec(n, LAMBDA j: r.m[i][j] / s(j)), Vec(n, LAMBDA j: At(c, i, j) / s(j)), 0, "1e-6"))
    \cup All(Len(r.combos), LAMBDA q:
           LET w == r.combos[q] b == Bound(c, w.v) IN
           ChkNum("variance of a combination", w.var, VarianceOf(c, w.v), 0, b * Real("1e-6")))

TraceInit == k \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ done' = TRUE /\ UNCHANGED k
TraceConforms ==
  done => LET bad == Failures(Trace[k])
          IN bad = {} \/ (PrintT("BAD " \o ToString(k) \o " " \o ToString(bad)) /\ FALSE)
=============================================================================
