---------------------------- MODULE Instruments ----------------------------
(***************************************************************************)
(* Channels of radiometers (C27), in kHz, and the use of their lists by a  *)
(* process: lists are asked for, and changed by whoever got them.          *)
(*                                                                         *)
(* A channel is a centre with one band (single), two bands (double         *)
(* sideband) or four.  A state is the sequence of lists handed out.        *)
(***************************************************************************)
EXTENDS Num, Sequences, FiniteSets, TLC

MHz(x) == x * 1000
Single(s) == s
Pair(c, d) == << c - d, c + d >>
Quad(c, b, d) == << c - b - d, c - b + d, c + b - d, c + b + d >>
\* sidebands about one centre in ascending frequency, offsets widest first
Around(c, offs) == [i \in 1..Len(offs) |-> c - offs[i]] \o [i \in 1..Len(offs) |-> c + offs[Len(offs) + 1 - i]]

H2O183 == 183310000
O57    == 57290344
O118   == 118750300

Ground == [
  hat |-> << 22240000, 23040000, 23840000, 25440000, 26240000, 27840000, 31400000, 51260000, 52280000, 53860000, 54940000,
             56660000, 57300000, 58000000 >>,
  mp3 |-> << 22234000, 22500000, 23034000, 23834000, 25000000, 26234000, 28000000, 30000000, 51248000, 51760000, 52280000,
             52804000, 53336000, 53848000, 54400000, 54940000, 55500000, 56020000, 56660000, 57288000, 57964000, 58800000 >>,
  arm |-> << 22235000, 23035000, 23835000, 26235000, 30000000, 51250000, 52280000, 53850000, 54940000, 56660000, 57290000,
             58800000 >>,
  tem |-> << 51250000, 51750000, 52250000, 52850000, 53350000, 53850000, 54400000, 54900000, 55400000, 56000000, 56500000,
             57000000 >>,
  k2w |-> << 23840000, 31400000, 72500000, 82500000, 90000000, 150000000 >> ]

\* satellite sensors: sequences of channels, a channel with sidebands given by its centre
Satellite == [
  saphir |-> Around(H2O183, << 11000000, 6800000, 4200000, 2800000, 1100000, 200000 >>),
  amsu   |-> << 89000000, 150000000 >> \o Around(H2O183, << 7000000, 3000000, 1000000 >>),
  atms   |-> << 88200000, 165500000 >> \o Around(H2O183, << 7000000, 4500000, 3000000, 1800000, 1000000 >>),
  mwi    |-> << 18700000, 23800000, 31400000, 50300000, 52610000, 53240000, 53750000, 89000000 >>
             \o Around(O118, << 3200000, 2100000, 1400000, 1200000 >>) \o Pair(165500000, 725000)
             \o Around(H2O183, << 8400000, 6100000, 4900000, 3400000, 2000000 >>),
  mws    |-> << 23800000, 31400000, 50300000, 52800000 >>
             \o Pair(53246000, 80000) \o Pair(53596000, 115000) \o Pair(53948000, 81000)
             \o << 54400000, 54940000, 55500000, O57 >> \o Pair(O57, 217000)
             \o Quad(O57, 322200, 48000) \o Quad(O57, 322200, 22000) \o Quad(O57, 322200, 10000) \o Quad(O57, 322200, 4500)
             \o << 89000000 >> \o Pair(165500000, 725000)
             \o Around(H2O183, << 7000000, 4500000, 3000000, 1800000, 1000000 >>) \o << 229000000 >>,
  \* +/- 0.2 GHz at 183.31 is pyrtlib's (its manual groups eight frequencies there)
  ici    |-> Around(H2O183, << 7000000, 3400000, 2000000, 200000 >>)
             \o Pair(243200000, 2500000) \o Around(325150000, << 9500000, 3500000, 1500000 >>)
             \o Around(448000000, << 7200000, 3000000, 1400000 >>) \o Pair(664000000, 4200000) ]

\* centre and offsets of the double sideband channels
Doubles == [
  saphir |-> { <<H2O183, d>> : d \in {200000, 1100000, 2800000, 4200000, 6800000, 11000000} },
  amsu   |-> { <<H2O183, d>> : d \in {1000000, 3000000, 7000000} },
  atms   |-> { <<H2O183, d>> : d \in {1000000, 1800000, 3000000, 4500000, 7000000} },
  mwi    |-> { <<O118, d>> : d \in {1200000, 1400000, 2100000, 3200000} } \cup { <<165500000, 725000>> }
             \cup { <<H2O183, d>> : d \in {2000000, 3400000, 4900000, 6100000, 8400000} },
  mws    |-> { <<53246000, 80000>>, <<53596000, 115000>>, <<53948000, 81000>>, <<O57, 217000>>, <<165500000, 725000>> }
             \cup { <<O57 + s * 322200, d>> : s \in {0 - 1, 1}, d \in {48000, 22000, 10000, 4500} }
             \cup { <<H2O183, d>> : d \in {1000000, 1800000, 3000000, 4500000, 7000000} },
  ici    |-> { <<H2O183, d>> : d \in {200000, 2000000, 3400000, 7000000} } \cup { <<243200000, 2500000>>, <<664000000, 4200000>> }
             \cup { <<325150000, d>> : d \in {1500000, 3500000, 9500000} } \cup { <<448000000, d>> : d \in {1400000, 3000000, 7200000} } ]

Channels(kind, name) == IF kind = "ground" THEN Ground[name] ELSE Satellite[name]
Known(kind, name) == name \in (IF kind = "ground" THEN DOMAIN Ground ELSE DOMAIN Satellite)
Names == DOMAIN Ground \cup DOMAIN Satellite
\* ways of writing a name, done by the recorder
Spellings == {"lower", "upper", "title", "mixed"}
\* names of no instrument
Unknown == {"", "hat ", " mws", "ha", "hatt", "mw", "mwss", "amsu-b", "amsua", "none", "0", "mp-3"}

Start == <<>>
\* changes of a list by whoever got it
Change(s, e) ==
  CASE e.how = "set"  -> [s EXCEPT ![1 + ((e.at - 1) % Len(s))] = e.value]
    [] e.how = "zero" -> [i \in 1..Len(s) |-> 0]
    [] e.how = "flip" -> [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
    [] e.how = "add"  -> [i \in 1..Len(s) |-> s[i] + e.value]
Step(st, e) ==
  CASE e.op = "ask" /\ Known(e.kind, e.name) -> Append(st, Channels(e.kind, e.name))
    [] e.op = "change" -> [st EXCEPT ![e.list] = Change(@, e)]
    [] OTHER -> st
Enabled(st, e) == e.op = "change" => e.list \in 1..Len(st)

(* properties of the tables *)
Rng(s) == {s[i] : i \in 1..Len(s)}
NoRepeats(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Symmetric(name) == \A p \in Doubles[name] : {p[1] - p[2], p[1] + p[2]} \subseteq Rng(Satellite[name])
Paired(name) == Cardinality(UNION {{p[1] - p[2], p[1] + p[2]} : p \in Doubles[name]}) = 2 * Cardinality(Doubles[name])
TablesOK == /\ \A n \in DOMAIN Ground : NoRepeats(Ground[n]) /\ \A i \in 1..(Len(Ground[n]) - 1) : Ground[n][i] < Ground[n][i + 1]
            /\ \A n \in DOMAIN Satellite : NoRepeats(Satellite[n]) /\ Symmetric(n) /\ Paired(n)
=============================================================================
