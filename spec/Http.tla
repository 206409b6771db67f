--------------------------------- MODULE Http ---------------------------------
(***************************************************************************)
(* Endpoints of web services: a process opens endpoints and sends requests *)
(* through them to one server (C24).                                       *)
(*                                                                         *)
(* A state is                                                              *)
(*   opts   the options given to sessions created from now on              *)
(*   eps    the endpoints: base address, options of the session, cookies   *)
(* An event is something the process does, with the reply of the server.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* base addresses: path on the server, with or without a slash at the end
Bases == { [dir |-> "/archive/data", slash |-> TRUE], [dir |-> "/archive/data", slash |-> FALSE],
           [dir |-> "/cgi-bin/sounding", slash |-> FALSE], [dir |-> "", slash |-> TRUE] }
Paths == {"x.txt", "por/ABC00012345-data.txt.zip", "d%20e/f", "", "a//b"}
\* queries: sequences of names and values
Queries == { <<>>, << <<"k", "v w">> >>, << <<"a", "1">>, <<"b", "2&3=4">> >>, << <<"stnm", "16245">>, <<"a", "x/y?z">> >> }

\* options of sessions: who is authorised, and parameters of every request
NoOpts == [auth |-> "", params |-> <<>>]
Options == { NoOpts, [auth |-> "ann:s3cret", params |-> <<>>], [auth |-> "", params |-> << <<"key", "K1">> >>],
             [auth |-> "bob:b", params |-> << <<"key", "K2">>, <<"v", "1">> >>] }

\* what the server does with a request
Good  == {"ok", "html", "cookie", "empty"}           \* status 200
Moved == {"movedok", "movedbad"}                     \* 302 to a page that exists or not
Bad   == {"s201", "s204", "s206", "s304", "s400", "s401html", "s403", "s404html", "s404", "s429", "s500", "s503html"}
Broken == {"drop", "cut"}                            \* no answer, half an answer
Replies == Good \cup Moved \cup Bad \cup Broken
\* the status and the message an error has to carry: the body, or the reason of an HTML page
Status(r) == CASE r = "s201" -> "201" [] r = "s204" -> "204" [] r = "s206" -> "206" [] r = "s304" -> "304" [] r = "s400" -> "400" [] r = "s401html" -> "401"
               [] r = "s403" -> "403" [] r = "s404html" -> "404" [] r = "s404" -> "404" [] r = "s429" -> "429" [] r = "s500" -> "500" [] r = "s503html" -> "503"
               [] r = "movedbad" -> "404" [] OTHER -> ""
Message(r) == CASE r = "s204" -> "" [] r = "s304" -> "" [] r = "s401html" -> "Unauthorized" [] r = "s404html" -> "Not Found" [] r = "s503html" -> "Service Unavailable"
                [] r = "movedbad" -> "nothing here" [] r \in Bad -> "reply " \o r [] OTHER -> ""

Start == [opts |-> NoOpts, eps |-> <<>>]

Asks(e) == e.op \in {"path", "query", "get"}
Enabled(s, e) == (Asks(e) \/ e.op = "close") => e.ep \in 1..Len(s.eps)

\* path on the server of a request
Target(s, e) ==
  LET b == s.eps[e.ep].base
      dir == b.dir
  IN CASE e.op = "path"  -> dir \o "/" \o e.path
       [] e.op = "query" -> IF dir = "" THEN "/" ELSE dir
       [] e.op = "get"   -> "/elsewhere/" \o e.path
       [] e.op = "urlopen" -> "/elsewhere/" \o e.path

\* what the server must see of a request
Asked(s, e) ==
  LET o == IF Asks(e) THEN s.eps[e.ep].opts ELSE s.opts
  IN [method |-> "GET", path |-> Target(s, e),
      query |-> {e.query[i] : i \in 1..Len(e.query)} \cup {o.params[i] : i \in 1..Len(o.params)},
      auth |-> o.auth,
      cookies |-> IF Asks(e) THEN s.eps[e.ep].jar ELSE {}]

\* the tag of the cookie the server gives away at the nth request
Step(s, e) ==
  CASE e.op = "options" -> [s EXCEPT !.opts = e.opts]
    [] e.op = "open"    -> [s EXCEPT !.eps = Append(@, [base |-> e.base, opts |-> s.opts, jar |-> {}])]
    [] Asks(e) /\ e.reply = "cookie" -> [s EXCEPT !.eps[e.ep].jar = @ \cup {e.tag}]
    [] OTHER -> s

\* how the request ends
Outcome(e) ==
  IF e.reply \in Good \cup {"movedok"} THEN "response"
  ELSE IF e.reply \in Broken THEN "exception"
  ELSE IF Asks(e) THEN "httperror" ELSE "any"

(* properties of the design *)
TypeOK(s) == \A n \in 1..Len(s.eps) : s.eps[n].base \in Bases /\ s.eps[n].opts \in Options
\* an event on one endpoint leaves the others alone, and no endpoint learns another's secrets
Independent(s, t, e) ==
  \A n \in 1..Len(s.eps) : (~Asks(e) \/ n # e.ep) => t.eps[n] = s.eps[n]
Private(s) == \A m, n \in 1..Len(s.eps) : m # n => s.eps[m].jar \cap s.eps[n].jar = {}
=============================================================================
