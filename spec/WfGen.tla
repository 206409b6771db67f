-------------------------------- MODULE WfGen --------------------------------
(***************************************************************************)
(* Histories of one object that computes weighting functions and draws     *)
(* them: options in any order, computations, figures.  lists[i] is how     *)
(* many frequencies list i has.  Prints random walks for replay.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES evs, frq, have, band, runs, fin

Depth == atoi(IOEnv.DEPTH)
Lists == <<1, 3, 5, 6, 10>>
Parts == << << <<1>> >>, << <<1, 2>>, <<3>>, <<1, 1, 1>> >>, << <<2, 1, 2>>, <<1, 4>> >>, << <<1, 2, 3>>, <<2, 4>>, <<4, 1, 1>> >>,
            << <<3, 1, 4, 2>>, <<10>>, <<1, 1, 2, 1, 2, 2, 1>> >> >>
Models == {"R98", "R03", "R16", "R17", "R18", "R19", "R19SD", "R20", "R20SD", "R21SD", "R22SD", "R23SD", "R24", "MWL24"}

Init == evs = <<[op |-> "frq", v |-> 2]>> /\ frq = 2 /\ have = 0 /\ band = FALSE /\ runs = 0 /\ fin = FALSE
Add(e) == evs' = Append(evs, e) /\ UNCHANGED fin
Keep == UNCHANGED <<frq, have, band, runs>>
Set ==
  \/ \E i \in 1..Len(Lists) : Add([op |-> "frq", v |-> i]) /\ frq' = i /\ band' = FALSE /\ UNCHANGED <<have, runs>>
  \/ \E v \in BOOLEAN : Add([op |-> "sat", v |-> v]) /\ Keep
  \/ \E v \in 1..4 : Add([op |-> "ang", v |-> v]) /\ Keep
  \/ \E m \in Models : Add([op |-> "model", v |-> m]) /\ Keep
  \/ \E v \in 1..2 : Add([op |-> "es", v |-> v]) /\ Keep
  \/ \E b \in 1..Len(Parts[frq]) : Add([op |-> "band", v |-> Parts[frq][b]]) /\ band' = TRUE /\ UNCHANGED <<frq, have, runs>>
  \/ band /\ Add([op |-> "band", v |-> <<>>]) /\ band' = FALSE /\ UNCHANGED <<frq, have, runs>>
  \/ \E v \in BOOLEAN : Add([op |-> "labels", v |-> v]) /\ Keep
Refused == \E v \in {"sat", "frq"} : Add([op |-> "refused", v |-> v]) /\ Keep
\* computations; the result is kept for figures
Generate == runs < 3 /\ Add([op |-> "generate"]) /\ have' = frq /\ runs' = runs + 1 /\ UNCHANGED <<frq, band>>
\* something else runs: another object, a simulation with a perturbed spectrum
Other == \E v \in {"wf", "rte", "amu"} : Add([op |-> "other", v |-> v]) /\ Keep
Draw == have = frq /\
  \/ \E nm \in BOOLEAN, lg \in BOOLEAN, yl \in {0, 1, 2}, xl \in {0, 1} : Add([op |-> "plot", normalized |-> nm, legend |-> lg, ylim |-> yl, xlim |-> xl]) /\ Keep
  \/ \E b \in 1..Len(Parts[frq]), yl \in {0, 1, 2} : Add([op |-> "grouped", groups |-> Parts[frq][b], ylim |-> yl]) /\ Keep
Next == IF Len(evs) < Depth THEN (Set \/ Refused \/ Generate \/ Generate \/ Other \/ Draw)
        ELSE ~fin /\ fin' = TRUE /\ UNCHANGED <<evs, frq, have, band, runs>>
Emit == fin => PrintT("HIST " \o ToJson(evs))
Typed == frq \in 1..Len(Lists) /\ runs =< 3
=============================================================================
