------------------------------- MODULE InstGen -------------------------------
(* Histories of channel lists for replay: DEPTH events, then every name    *)
(* is asked for once more.                                                 *)
EXTENDS Instruments, Json, IOUtils, Randomization
VARIABLES st, evs, fin

Depth == atoi(IOEnv.DEPTH)
Wide == IOEnv.WIDE = "yes"

Asks == [op : {"ask"}, kind : {"ground"}, name : DOMAIN Ground, spelling : Spellings]
        \cup [op : {"ask"}, kind : {"satellite"}, name : DOMAIN Satellite, spelling : Spellings]
Refused == [op : {"ask"}, kind : {"ground"}, name : DOMAIN Satellite \cup Unknown, spelling : {"lower", "upper"}]
           \cup [op : {"ask"}, kind : {"satellite"}, name : DOMAIN Ground \cup Unknown, spelling : {"lower", "upper"}]
Default == {[op |-> "ask", kind |-> "ground", name |-> "hat", spelling |-> "default"]}
Changes(s) == [op : {"change"}, list : 1..Len(s), how : {"set"}, at : IF Wide THEN 1..8 ELSE {1}, value : {1000000, 57290344}]
              \cup [op : {"change"}, list : 1..Len(s), how : {"zero", "flip", "add"}, at : {1}, value : {1000}]
Few(S, n) == IF Wide /\ Cardinality(S) > n THEN RandomSubset(n, S) ELSE S

Init == st = Start /\ evs = <<>> /\ fin = FALSE
Do(e) == Enabled(st, e) /\ st' = Step(st, e) /\ evs' = Append(evs, e) /\ UNCHANGED fin
Next == IF Len(evs) < Depth THEN (\E e \in Few(Asks \cup Default, 8) : Do(e)) \/ (\E e \in Few(Refused, 3) : Do(e)) \/ (\E e \in Few(Changes(st), 8) : Do(e))
        ELSE ~fin /\ fin' = TRUE /\ UNCHANGED <<st, evs>>

RECURSIVE Seq1(_)
Seq1(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Seq1(S \ {x})
Closing == Seq1({e \in Asks : e.spelling = "lower"})
Emit == fin => PrintT("HIST " \o ToJson(evs \o Closing))
Tables == TablesOK
\* asking for a list or changing one leaves the lists already handed out alone
Lawful == [][\A i \in 1..Len(st) : Len(st'[i]) = Len(st[i]) /\ (st'[i] # st[i] => /\ evs'[Len(evs')].op = "change" /\ evs'[Len(evs')].list = i)]_<<st, evs, fin>>
=============================================================================
