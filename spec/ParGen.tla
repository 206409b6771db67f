-------------------------------- MODULE ParGen --------------------------------
(***************************************************************************)
(* Histories of parameter sets: which kinds of operation, on which of the  *)
(* sets handed out.  Names, entries and values are filled in when they are *)
(* replayed.  Prints every history of length DEPTH.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES evs, n, cur, dirty

Depth == atoi(IOEnv.DEPTH)
Kinds == {"water", "oxygen", "ozone", "both"}
Modes == {"max", "min", "non", "ran", "bad"}

Init == evs = <<>> /\ n = 0 /\ cur = 0 /\ dirty = FALSE
Add(e) == evs' = Append(evs, e)
Build == \E kd \in Kinds : Add([op |-> "build", kind |-> kd]) /\ n' = n + 1 /\ UNCHANGED <<cur, dirty>>
Wrong == \E kd \in {"water", "oxygen", "ozone"} : Add([op |-> "wrong", kind |-> kd]) /\ UNCHANGED <<n, cur, dirty>>
Edit  == \E k \in 1..n : \E f \in {"value", "uncer", "replace"} :
           Add([op |-> "edit", k |-> k, field |-> f]) /\ dirty' = (dirty \/ k = cur) /\ UNCHANGED <<n, cur>>
Use   == \E k \in 1..n : Add([op |-> "set", k |-> k]) /\ cur' = k /\ dirty' = FALSE /\ UNCHANGED n
\* how many names, and one entry or all
\* the names asked for, one entry or all of them
Asked == [mode : {"max", "min"}, what : {"one", "some", "all"}, index : {"entry", "first", "every"}]
         \cup {[mode |-> "non", what |-> "all", index |-> "every"], [mode |-> "ran", what |-> "one", index |-> "entry"],
               [mode |-> "bad", what |-> "one", index |-> "entry"], [mode |-> "max", what |-> "unknown", index |-> "every"],
               [mode |-> "min", what |-> "some", index |-> "beyond"], [mode |-> "non", what |-> "one", index |-> "entry"]}
Perturb == ~dirty /\ \E q \in (IF cur = 0 THEN {[mode |-> "max", what |-> "all", index |-> "every"]} ELSE Asked) :
           /\ Add([op |-> "perturb"] @@ q)
           /\ n' = (IF cur > 0 /\ q.mode \in {"max", "min", "non"} /\ q.what # "unknown" /\ q.index # "beyond" THEN n + 1 ELSE n)
           /\ UNCHANGED <<cur, dirty>>
\* the owner gives every parameter of a set an uncertainty
Spread == \E k \in 1..n : Add([op |-> "spread", k |-> k]) /\ dirty' = (dirty \/ k = cur) /\ UNCHANGED <<n, cur>>
Run   == \E k \in 1..n : \E v \in {"ground", "space", "rays"} : Add([op |-> "run", k |-> k, view |-> v]) /\ UNCHANGED <<n, cur, dirty>>
Next == Len(evs) < Depth /\ (Build \/ Wrong \/ Spread \/ Edit \/ Use \/ Perturb \/ Run)
Emit == Len(evs) = Depth => PrintT("HIST " \o ToJson(evs))
Lawful == cur =< n
=============================================================================
