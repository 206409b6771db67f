------------------------------ MODULE CovDesign -----------------------------
(***************************************************************************)
(* What every covariance matrix has to satisfy, checked for the published  *)
(* ones element by element and for combinations of two parameters.         *)
(***************************************************************************)
EXTENDS Covariance
VARIABLES name, i

DInit == name \in Names /\ i = 1
DNext == i < SizeOf(name) /\ i' = i + 1 /\ UNCHANGED name
C == Cov[name]
Shape == Len(C) = SizeOf(name) /\ Len(C[i]) = i
Positive == Variance(C, i) > 0
Correlated == \A j \in 1..i : Possible(C, i, j)
\* uncertainties of sums and differences of two parameters, in units of their own
Pairs == \A j \in 1..i : LET s == Sqrt(Variance(C, i)) u == Sqrt(Variance(C, j)) r == At(C, i, j) / (s * u)
                         IN 2 + 2 * r >= Real("-1e-6") /\ 2 - 2 * r >= Real("-1e-6")
\* the oxygen parameters are the same in all three
Common == i =< Oxygen => \A j \in 1..i : \A o \in Names : Close(C[i][j], Cov[o][i][j], "1e-6", "1e-12")
\* the updated matrix keeps the order of the first one
Order == (name = "R17_111" /\ i > Oxygen) => Close(Variance(C, i), Variance(Cov["R17_112"], i), "0.99", 0)
=============================================================================
