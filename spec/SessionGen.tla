----------------------------- MODULE SessionGen -----------------------------
(***************************************************************************)
(* Histories of a process that uses the library: a fixed opening, then up  *)
(* to Depth events of the alphabet, then executions of every object before *)
(* and after the selection is restored.  TLC explores every history of     *)
(* that depth (or, in simulation mode, random longer ones), checks the     *)
(* properties of the state machine, and prints the histories for replay on *)
(* the real code.                                                          *)
(***************************************************************************)
EXTENDS Session, Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES st, mid, last

Depth == atoi(IOEnv.DEPTH)

New(scen, sat, ray, o3, cloudy, amu, m) ==
  [op |-> "new", scen |-> scen, sat |-> sat, ray |-> ray, o3 |-> o3, cloudy |-> cloudy, amu |-> amu, absmdl |-> m]
Sel(sp, m) == [op |-> "select", sp |-> sp, m |-> m]
Init(n, m) == [op |-> "init", obj |-> n, m |-> m]
Run(n) == [op |-> "execute", obj |-> n]

Opening == << New(1, FALSE, FALSE, TRUE, TRUE, 0, "R20SD"), Sel("o3", "R22"), New(2, TRUE, TRUE, FALSE, FALSE, 0, ""),
              [op |-> "params", m |-> "R20SD", m3 |-> "R22"], [op |-> "perturb", par |-> 1, pert |-> 1], Run(1) >>

Alphabet ==
  { New(1, TRUE, FALSE, TRUE, TRUE, 0, ""), New(2, FALSE, FALSE, TRUE, FALSE, 0, "R98"), New(3, TRUE, FALSE, FALSE, TRUE, 0, "R24"),
    New(1, FALSE, TRUE, TRUE, FALSE, 2, ""), New(3, FALSE, FALSE, TRUE, FALSE, 0, "R99") }
  \cup { Init(n, m) : n \in {1, 2}, m \in {"R98", "R20SD", "R22SD", "R99"} }
  \cup { Sel("h2o", m) : m \in {"R98", "R23SD", "R16", "R23"} }
  \cup { Sel("o2", m) : m \in {"R20", "R22", "R98", "R21SD"} }
  \cup { Sel("n2", m) : m \in {"R98", "R24", "none"} }
  \cup { Sel("liq", m) : m \in {"R03", "R20", "none"} }
  \cup { Sel("o3", m) : m \in {"R18", "R23", "R16", ""} }
  \cup { [op |-> "sat", obj |-> n, v |-> v] : n \in {1, 2}, v \in BOOLEAN }
  \cup { [op |-> "ray", obj |-> n, v |-> n = 1] : n \in {1, 2} }
  \cup { [op |-> "ice", obj |-> n, v |-> TRUE] : n \in {1, 2} }
  \cup { [op |-> "es", obj |-> n, v |-> v] : n \in {2}, v \in {2, 3} }
  \cup { [op |-> "cloudy", obj |-> n, v |-> n = 2] : n \in {1, 2} }
  \cup { [op |-> "amu", obj |-> n, par |-> p] : n \in {1, 2}, p \in {1, 2} }
  \cup { [op |-> "params", m |-> "R98", m3 |-> "R18"], [op |-> "params", m |-> "R20SD", m3 |-> "R22"] }
  \cup { [op |-> "perturb", par |-> p, pert |-> x] : p \in {1, 2}, x \in {2, 3} }
  \cup { [op |-> "wf", scen |-> 2, m |-> m] : m \in {"R24", "R20SD"} }
  \cup { Run(n) : n \in {1, 2} }
  \cup { [op |-> "badnew"], [op |-> "aux"], [op |-> "badsat", obj |-> 1], [op |-> "bades", obj |-> 2], [op |-> "badrun", obj |-> 1], [op |-> "badrun", obj |-> 2], [op |-> "scribble", n |-> 1] }

\* every object, then the first selection again, every object, a new object
Objects(s) == [n \in 1..Len(s.objs) |-> Run(n)]
Closing(s) == Objects(s) \o << Init(1, "R20SD"), Sel("o3", "R22") >> \o Objects(s)
              \o << New(1, TRUE, FALSE, TRUE, FALSE, 0, ""), Run(Len(s.objs) + 1) >>

RECURSIVE Play(_, _)
\* the events of h that are enabled, from state s
Play(s, h) ==
  IF h = <<>> THEN [st |-> s, evs |-> <<>>]
  ELSE IF ~Enabled(s, Head(h)) THEN Play(s, Tail(h))
  ELSE LET r == Play(Step(s, Head(h)), Tail(h)) IN [st |-> r.st, evs |-> <<Head(h)>> \o r.evs]

Opened == Play(Start, Opening)
History(s) == Opening \o mid \o Play(s, Closing(s)).evs

RECURSIVE Keys(_, _)
\* keys of the executions of a history that succeed
Keys(s, h) ==
  IF h = <<>> THEN {}
  ELSE (IF Head(h).op = "execute" /\ Refusals(s, Head(h).obj) = {} THEN {Key(s, Head(h).obj)} ELSE {})
       \cup Keys(Step(s, Head(h)), Tail(h))

GenInit == st = Opened.st /\ mid = <<>> /\ last = [op |-> "start"]
GenNext == \E e \in Alphabet :
             /\ Len(mid) < Depth
             /\ Enabled(st, e) = TRUE
             /\ st' = Step(st, e) /\ mid' = Append(mid, e) /\ last' = e

\* print the history of the state (the longest and the single-event ones)
Emit ==
  (Len(mid) = Depth \/ Len(mid) = 1) =>
     LET h == History(st) IN PrintT("HIST " \o ToJson([evs |-> h, keys |-> Keys(Start, h)]))

(* --------------------------- scripted histories -------------------------- *)
(* Siblings: scenarios 4 to 16 are scenario 1 with one input changed (heights,
   pressure, temperature, humidity, frequencies, angles, ozone, liquid, ice,
   cloud levels), with tiny changes, with values exchanged between levels, and
   with frequencies and angles the other way round.  They are simulated one after the other with the same
   options, upwards and downwards, from arrays of their own and from the same
   arrays overwritten by the caller. *)
SibOptions == { [sat |-> FALSE, ray |-> TRUE, o3 |-> TRUE, cloudy |-> TRUE], [sat |-> TRUE, ray |-> FALSE, o3 |-> TRUE, cloudy |-> TRUE],
                [sat |-> TRUE, ray |-> TRUE, o3 |-> FALSE, cloudy |-> FALSE], [sat |-> FALSE, ray |-> FALSE, o3 |-> FALSE, cloudy |-> TRUE] }
SibN == 15
SibUp == [i \in 1..SibN |-> IF i = 1 \/ i = SibN THEN 1 ELSE i + 2]
SibDown == [i \in 1..SibN |-> SibUp[SibN + 1 - i]]
SibNew(q, scen, reuse) == [op |-> "new", scen |-> scen, sat |-> q.sat, ray |-> q.ray, o3 |-> q.o3, cloudy |-> q.cloudy, amu |-> 0,
                           absmdl |-> "R20SD", reuse |-> reuse]
SibScript(q, order, reuse) ==
  << Sel("o3", "R22") >>
  \o [i \in 1..(2 * SibN) |-> IF i % 2 = 1 THEN SibNew(q, order[(i + 1) \div 2], reuse) ELSE Run(i \div 2)]
  \o (IF reuse THEN <<>> ELSE [i \in 1..SibN |-> Run(i)])
Siblings == { SibScript(q, o, r) : q \in SibOptions, o \in {SibUp, SibDown}, r \in BOOLEAN }

(* Selections: every model for everything, by the object and by the
   constructor, against every ozone model; every model for every species. *)
AllModels == AnyKnown \cup {"R99"}
Selections ==
  { << Sel("o3", x), New(1, TRUE, FALSE, TRUE, TRUE, 0, "R20SD"), Run(1), Init(1, m), Run(1) >> : x \in OzoneKnown, m \in AllModels }
  \cup { << Sel("o3", x), New(1, TRUE, FALSE, TRUE, TRUE, 0, m), Run(1) >> : x \in OzoneKnown, m \in AllModels }
  \cup { << Sel("o3", "R22"), New(1, FALSE, FALSE, TRUE, TRUE, 0, b), Sel(sp, m), Run(1), New(2, TRUE, FALSE, TRUE, FALSE, 0, ""), Run(2) >> :
         b \in {"R20SD", "R19"}, sp \in Species, m \in AllModels }

Scripts == CASE IOEnv.FAMILY = "siblings" -> Siblings
             [] IOEnv.FAMILY = "selections" -> Selections

ScriptInit == st = Start /\ mid = <<>> /\ last = [op |-> "start"]
ScriptNext == \E s \in Scripts :
                /\ Len(mid) < Len(s)
                /\ SubSeq(s, 1, Len(mid)) = mid
                /\ LET e == s[Len(mid) + 1]
                   IN /\ Assert(Enabled(st, e), e)
                      /\ st' = Step(st, e) /\ mid' = Append(mid, e) /\ last' = e
ScriptEmit == mid \in Scripts => PrintT("HIST " \o ToJson([evs |-> mid, keys |-> Keys(Start, mid)]))

Typed == TypeOK(st)
\* results, parameter sets, options and selections change as they should
Lawful == [][ /\ Snapshots(st, st')
              /\ ParsKept(st, st')
              /\ Private(st, st', last')
              /\ SelectionRule(st, st', last') ]_<<st, mid, last>>
=============================================================================
