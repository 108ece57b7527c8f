-------------------------------- MODULE Http --------------------------------
(* The registry behind HTTP.  A request arrives, takes effect at one moment   *)
(* (Commit) and is answered later.  Everything else is interleaving.          *)
EXTENDS Registry

VARIABLES
  reqs,     \* id -> request, arrived and not yet answered
  ans       \* id -> answer, once the request has taken effect

hvars == <<store, rout, reqs, ans>>

\* request: [m: "ls"|"get"|"versions"|"post"|"put", n, v, ct, b]
\* content type: "none", "recap" or "other"; body: [kind, d] (see BodyType)
BodyType(b) ==
  CASE b.kind = "json" -> FromDict(b.d)
    [] b.kind = "text" -> FromDict(JStr(b.s))     \* not JSON: the name of a type
    [] OTHER -> Rej                               \* not even text

Publishes(r) == r.m \in {"post", "put"}

\* every error that applies; which of them is reported is open
Errors(r) ==
  IF Publishes(r)
  THEN (IF r.ct = "other" THEN {"415"} ELSE {})
       \cup (IF ~BodyType(r.b).ok THEN {"400"} ELSE {})
       \cup (IF r.m = "put" /\ r.v \in VersionsOf(r.n) THEN {"409"} ELSE {})
  ELSE IF r.m = "ls" THEN {}
  ELSE IF VersionsOf(r.n) = {} \/ (r.m = "get" /\ r.v # "" /\ r.v \notin VersionsOf(r.n)) THEN {"404"}
  ELSE {}

HInit == RInit /\ reqs = [i \in {} |-> 0] /\ ans = [i \in {} |-> 0]

Arrive(i, r) == reqs' = (i :> r) @@ reqs /\ UNCHANGED <<store, rout, ans>>

Fail(i, s) == ans' = (i :> [status |-> s]) @@ ans /\ UNCHANGED <<store, rout, reqs>>

Succeed(i) ==
  LET r == reqs[i] IN
  /\ CASE Publishes(r) -> Put(r.n, r.v, BodyType(r.b).t)
       [] r.m = "get" -> Fetch(r.n, r.v)
       [] r.m = "versions" -> Versions(r.n)
       [] r.m = "ls" -> Ls
  /\ ans' = (i :> [status |-> "200", out |-> rout']) @@ ans
  /\ UNCHANGED reqs

\* the moment at which request i takes effect
Commit(i) ==
  /\ i \in DOMAIN reqs /\ i \notin DOMAIN ans
  /\ IF Errors(reqs[i]) # {} THEN \E s \in Errors(reqs[i]) : Fail(i, s) ELSE Succeed(i)

Respond(i) ==
  /\ i \in DOMAIN ans
  /\ reqs' = Without(reqs, {i})
  /\ UNCHANGED <<store, rout, ans>>

\* the client went away before the whole body was sent: no effect
Abort(i) ==
  /\ i \in DOMAIN reqs /\ i \notin DOMAIN ans
  /\ reqs' = Without(reqs, {i})
  /\ UNCHANGED <<store, rout, ans>>
=============================================================================
