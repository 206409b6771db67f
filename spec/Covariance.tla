----------------------------- MODULE Covariance -----------------------------
(***************************************************************************)
(* Covariance matrices of the uncertainties of spectroscopic parameters    *)
(* (C28).  Cov[name] is the published lower triangle, row by row.  The     *)
(* parameters come in the order of the publications: oxygen intensity,     *)
(* width exponent, width of the non-resonant term, then widths, mixing and *)
(* its temperature coefficient of 34 lines each, then water vapour.        *)
(***************************************************************************)
EXTENDS Num, Sequences, TLC, Json, IOUtils, FiniteSets

Cov == TLCEval(JsonDeserialize(IOEnv.VERIF_DIR \o "/data/cov.json"))
Names == {"R17_111", "R17_112", "R19"}
SizeOf(name) == CASE name = "R17_111" -> 111 [] name = "R17_112" -> 112 [] name = "R19" -> 135
Oxygen == 105

\* element of a symmetric matrix given by its lower triangle
At(c, i, j) == IF j =< i THEN c[i][j] ELSE c[j][i]
Variance(c, i) == c[i][i]

\* no correlation beyond one
Possible(c, i, j) == At(c, i, j) ^ 2 =< Variance(c, i) * Variance(c, j) * Real("1.000001")
\* the variance of sum of v[i] * parameter i
VarianceOf(c, v) == SumN(Len(v), LAMBDA i: v[i] * SumN(Len(v), LAMBDA j: At(c, i, j) * v[j]))
\* what it would be if the parameters were correlated at most in sign
Bound(c, v) == SumN(Len(v), LAMBDA i: Abs(v[i]) * Sqrt(Variance(c, i))) ^ 2
=============================================================================
