------------------------------- MODULE HttpGen -------------------------------
(***************************************************************************)
(* Histories of endpoints for replay: two endpoints are opened, then DEPTH *)
(* events, then every endpoint asks once more.                             *)
(***************************************************************************)
EXTENDS Http, Json, IOUtils, Randomization
VARIABLES st, evs, last, fin

Depth == atoi(IOEnv.DEPTH)
Wide == IOEnv.WIDE = "yes"

B(d, sl) == [op |-> "open", base |-> [dir |-> d, slash |-> sl]]
Opening == << B("/archive/data", TRUE), [op |-> "options", opts |-> [auth |-> "ann:s3cret", params |-> <<>>]], B("/cgi-bin/sounding", FALSE) >>

Tag(h) == "c" \o ToString(Len(h))
Requests(s, h) ==
  LET t == Tag(h) IN
  IF Wide THEN
    [op : {"path"}, ep : 1..Len(s.eps), path : Paths, query : Queries, reply : Replies, tag : {t}]
    \cup [op : {"query"}, ep : 1..Len(s.eps), path : {""}, query : Queries, reply : Replies, tag : {t}]
    \cup [op : {"get"}, ep : 1..Len(s.eps), path : Paths \ {""}, query : Queries, reply : Replies, tag : {t}]
    \cup [op : {"urlopen"}, path : Paths \ {""}, query : Queries, reply : Replies, tag : {t}]
  ELSE
    [op : {"path"}, ep : {1, 2}, path : {"x.txt"}, query : {<<>>}, reply : Replies, tag : {t}]
    \cup [op : {"query"}, ep : {2}, path : {""}, query : {<< <<"k", "v w">> >>}, reply : {"ok", "cookie", "s404", "drop"}, tag : {t}]
    \cup [op : {"urlopen"}, path : {"x.txt"}, query : {<<>>}, reply : {"ok", "cookie", "drop"}, tag : {t}]
Others(s) ==
  [op : {"options"}, opts : Options] \cup [op : {"open"}, base : Bases] \cup [op : {"close"}, ep : 1..Len(s.eps)] \cup {[op |-> "manager"]}

Ask(n, m) == [op |-> "path", ep |-> n, path |-> "last.txt", query |-> <<>>, reply |-> "ok", tag |-> "last"]
Closing(s) == [n \in 1..Len(s.eps) |-> Ask(n, 0)] \o << [op |-> "open", base |-> [dir |-> "/archive/data", slash |-> FALSE]] >>
              \o << Ask(Len(s.eps) + 1, 0) >>

RECURSIVE Play(_, _)
Play(s, h) == IF h = <<>> THEN s ELSE Play(Step(s, Head(h)), Tail(h))

Init == st = Play(Start, Opening) /\ evs = Opening /\ last = [op |-> "start"] /\ fin = FALSE
Do(e) == Enabled(st, e) = TRUE /\ st' = Step(st, e) /\ evs' = Append(evs, e) /\ last' = e /\ UNCHANGED fin
\* a random walk takes its requests from a few at random
Sample(S) == IF Wide THEN RandomSubset(20, S) ELSE S
Next == IF Len(evs) < Depth + Len(Opening) THEN (\E e \in Others(st) : Do(e)) \/ (\E e \in Sample(Requests(st, evs)) : Do(e))
        ELSE ~fin /\ fin' = TRUE /\ UNCHANGED <<st, evs, last>>

Emit == fin => PrintT("HIST " \o ToJson(evs \o Closing(st)))
Typed == TypeOK(st)
Apart == Private(st)
Lawful == [][Independent(st, st', last')]_<<st, evs, last, fin>>
=============================================================================
