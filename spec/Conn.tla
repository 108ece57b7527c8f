-------------------------------- MODULE Conn --------------------------------
(* The life of connections: requests open one connection each, use it, and   *)
(* close it before they end, whatever fails on the way.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* state: owner and status of each connection, which requests have ended, and which have seen a failure
Fresh == [owner |-> <<>>, open |-> {}, ended |-> {}, failed |-> {}, bad |-> {}]
Opened(s, q) == {c \in DOMAIN s.owner : s.owner[c] = q}
Note(s, b, t) == IF b THEN [s EXCEPT !.bad = @ \cup {t}] ELSE s

\* an event e: [ev, q (request), c (connection), ok]; files: requests that need no connection
Step(s, e, files) ==
  LET fails == e.ev \in {"fail connect", "fail use", "fail close", "fault"}
      s1 == IF fails THEN [s EXCEPT !.failed = @ \cup {e.q}] ELSE s
      mine == e.c \in DOMAIN s.owner /\ s.owner[e.c] = e.q
  IN CASE e.ev = "connect" -> Note([s1 EXCEPT !.owner = (e.c :> e.q) @@ @, !.open = @ \cup {e.c}],
                                   Opened(s, e.q) # {} \/ e.q \in s.ended \/ e.c \in DOMAIN s.owner, "a request opens more than one connection")
       [] e.ev = "fail connect" -> s1
       [] e.ev \in {"use", "fail use"} -> Note(Note(s1, ~mine, "a request uses the connection of another request"), e.c \notin s.open, "a closed connection is used")
       [] e.ev \in {"close", "fail close"} -> Note([s1 EXCEPT !.open = @ \ {e.c}], ~mine, "a request closes the connection of another request")
       [] e.ev = "fault" -> s1                  \* something else goes wrong: converting, formatting, the caller's own code
       [] e.ev = "end" -> Note(Note(Note([s1 EXCEPT !.ended = @ \cup {e.q}],
                                         Opened(s, e.q) \cap s.open # {}, "a connection is still open when its request ends"),
                                    e.ok /\ e.q \in s.failed, "a failure is hidden"),
                               e.ok /\ Opened(s, e.q) = {} /\ e.q \notin files, "a request succeeds without a connection")
       [] OTHER -> Note(s, TRUE, "an unknown event")
RECURSIVE Run(_, _, _)
Run(s, es, files) == IF es = <<>> THEN s ELSE Run(Step(s, Head(es), files), Tail(es), files)
=============================================================================
