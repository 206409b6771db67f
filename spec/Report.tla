------------------------------- MODULE Report -------------------------------
(* Comparison of recorded values with specified ones: the empty set when   *)
(* they agree, otherwise a set with one text naming the clause.            *)
LOCAL INSTANCE Num
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

Chk(name, ok) == IF ok THEN {} ELSE {name}
ChkNum(name, got, want, rtol, atol) ==
  IF Close(got, want, rtol, atol) THEN {}
  ELSE {name \o ": got " \o NumStr(got) \o " want " \o NumStr(want)}
ChkVec(name, got, want, rtol, atol) ==
  LET k == FirstFar(got, want, rtol, atol)
  IN IF k = 0 THEN {}
     ELSE IF k = -1 THEN {name \o ": length " \o ToString(Len(got)) \o " instead of " \o ToString(Len(want))}
     ELSE {name \o "[" \o ToString(k) \o "]: got " \o NumStr(got[k]) \o " want " \o NumStr(want[k])}
All(n, F(_)) == UNION {F(i) : i \in 1..n}
=============================================================================
