------------------------------ MODULE AdviceGen ------------------------------
(* Histories of simulations and their announcements for replay.            *)
EXTENDS Advice, Naturals, Sequences, TLC, Json, IOUtils, Randomization, FiniteSets
VARIABLES st, evs, fin

Depth == atoi(IOEnv.DEPTH)
Wide == IOEnv.WIDE = "yes"

News == [op : {"new"}, kind : Kinds, var : Variants, cloudy : BOOLEAN]
Others(s) == [op : {"liquid"}, m : LiquidModels]
             \cup [op : {"cloudy"}, obj : 1..Len(s.objs), v : BOOLEAN]
             \cup [op : {"clouds"}, obj : 1..Len(s.objs)]
Runs(s) == [op : {"execute"}, obj : 1..Len(s.objs)]
Few(S, n) == IF Wide /\ Cardinality(S) > n THEN RandomSubset(n, S) ELSE S

Init == st = Start /\ evs = <<>> /\ fin = FALSE
Do(e) == Enabled(st, e) /\ st' = Step(st, e) /\ evs' = Append(evs, e) /\ UNCHANGED fin
Next == IF Len(evs) < Depth
        THEN IF evs = <<>> THEN \E e \in News : Do(e)
             ELSE \/ Wide /\ Len(st.objs) < 4 /\ \E e \in Few(News, 2) : Do(e)
                  \/ \E e \in Few(Others(st), 4) : Do(e)
                  \/ \E e \in Few(Runs(st), 3) : Do(e)
        ELSE ~fin /\ fin' = TRUE /\ UNCHANGED <<st, evs>>

\* every history ends with executions of all that can be executed, twice
Runnable == SelectSeq([n \in 1..Len(st.objs) |-> [op |-> "execute", obj |-> n]], LAMBDA e : Enabled(st, e))
Emit == fin => PrintT("HIST " \o ToJson(evs \o Runnable \o Runnable))
\* executing and selecting change no object; what is announced does not
\* depend on what was announced before
Lawful == [][ LET e == evs'[Len(evs')] IN
              fin' = fin => /\ e.op \in {"execute", "liquid"} => st'.objs = st.objs
                            /\ e.op = "execute" => \A f \in [doubtful : BOOLEAN, unsound : BOOLEAN, deep : BOOLEAN] :
                                                     Announced(st', e, f) = Announced(st, e, f) ]_<<st, evs, fin>>
=============================================================================
