-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Numbers for the pyrtlib specification.                                  *)
(*                                                                         *)
(* TLC has no reals, so this module replaces Naturals/Integers in the      *)
(* numeric modules of the specification.  A number is one of               *)
(*   - a TLC integer (indices, counts, quantum numbers),                   *)
(*   - an IEEE double, represented as the pair of its 32-bit words,        *)
(*   - a string holding a decimal literal: "0.03341", "1e-6", "nan".       *)
(* Two integers combine to an integer (except under /); anything else      *)
(* combines to a double.  The operators below are evaluated by             *)
(* java/vnum/Num.java; their bodies here are placeholders.  Only scalar    *)
(* primitives live in Java: every formula is TLA+.                         *)
(***************************************************************************)
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

a + b == CHOOSE x : TRUE
a - b == CHOOSE x : TRUE
a * b == CHOOSE x : TRUE
a / b == CHOOSE x : TRUE
a ^ b == CHOOSE x : TRUE
-. a  == CHOOSE x : TRUE
a < b == CHOOSE x : x \in BOOLEAN
a > b == CHOOSE x : x \in BOOLEAN
a =< b == CHOOSE x : x \in BOOLEAN
a >= b == CHOOSE x : x \in BOOLEAN
a .. b == CHOOSE x : TRUE
a \div b == CHOOSE x : TRUE
a % b == CHOOSE x : TRUE

Real(a) == CHOOSE x : TRUE            \* as a double
NumEq(a, b) == CHOOSE x : x \in BOOLEAN   \* equal as doubles
SameNum(a, b) == CHOOSE x : x \in BOOLEAN \* equal, or both NaN
Close(a, b, rtol, atol) == CHOOSE x : x \in BOOLEAN
    \* |a - b| <= atol + rtol * max(|a|, |b|); NaN is close to NaN only
IsNaN(a) == CHOOSE x : x \in BOOLEAN
IsFinite(a) == CHOOSE x : x \in BOOLEAN
Exp(a) == CHOOSE x : TRUE
Ln(a) == CHOOSE x : TRUE
Log10(a) == CHOOSE x : TRUE
Sqrt(a) == CHOOSE x : TRUE
Sin(a) == CHOOSE x : TRUE
Cos(a) == CHOOSE x : TRUE
Tan(a) == CHOOSE x : TRUE
ATan(a) == CHOOSE x : TRUE
ASin(a) == CHOOSE x : TRUE
Tanh(a) == CHOOSE x : TRUE
Abs(a) == CHOOSE x : TRUE
Floor(a) == CHOOSE x : TRUE           \* an integer
NumStr(a) == CHOOSE x : TRUE          \* decimal string, for reports
Sum(s) == CHOOSE x : TRUE             \* sum of a sequence

ATan2(y, x) == CHOOSE z : TRUE
FirstFar(a, b, rtol, atol) == CHOOSE z : TRUE
    \* 0, or the first index where the sequences are not Close, -1 if their
    \* lengths differ

(***************************************************************************)
(* Sequences built by index.  Vec(n, F) is <<F(1), ..., F(n)>>; Scan(n, b, *)
(* F) is <<s1, ..., sn>> with s1 = F(b, 1) and s(i) = F(s(i-1), i); Fold   *)
(* is the last element of Scan; SumN the sum of Vec.                       *)
(***************************************************************************)
Vec(n, F(_)) == [i \in 1..n |-> F(i)]
Fold(n, b, F(_, _)) == CHOOSE x : TRUE
Scan(n, b, F(_, _)) == [i \in 1..n |-> Fold(i, b, F)]
SumN(n, F(_)) == Sum(Vec(n, F))

Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF b < a THEN b ELSE a
Pi == Real("3.141592653589793")
=============================================================================
