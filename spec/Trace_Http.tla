----------------------------- MODULE Trace_Http -----------------------------
(* Recorded HTTP histories.  Only arrivals and answers were observed; TLC     *)
(* looks for moments of effect that explain all answers.                      *)
EXTENDS Http, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k
tvars == <<store, rout, reqs, ans, l, k>>
If(c, s) == IF c THEN {s} ELSE {}
E == Trace[l].events[k]

MatchBody(r, e, o) ==
  CASE Publishes(r) -> If(e.rv # o.v, "another version is acknowledged than stored")
    [] r.m = "get" ->
         If(e.rv # o.v, "another version is returned")
         \cup LET p == FromDict(e.d) IN
              If(e.rv = o.v /\ ~(p.ok /\ EquivT(p.t, o.t)), "another type is returned")
    [] r.m = "versions" -> If(~(Range(e.vs) = o.vs /\ AscendingVersions(e.vs)), "the version list is wrong")
    [] r.m = "ls" -> If({x.s : x \in Range(e.names)} # o.names \/ ~AscendingNames(e.names), "the name list is wrong")

Match(i, e) ==
  LET a == ans[i] r == reqs[i] IN
  If(e.status # a.status, r.m \o ": answered " \o e.status \o " instead of " \o a.status)
  \cup (IF e.status = a.status /\ a.status = "200"
        THEN If(~e.shape, r.m \o ": malformed answer")
             \cup (IF e.shape THEN {r.m \o ": " \o s : s \in MatchBody(r, e, a.out)} ELSE {})
        ELSE {})

TraceInit == HInit /\ l \in 1..Len(Trace) /\ k = 1
Step(A) == A /\ k' = k + 1 /\ l' = l
                /\ (k = Len(Trace[l].events) => PrintT(ToJson([done |-> l])))
TraceNext ==
  /\ k <= Len(Trace[l].events)
  /\ \/ E.a = "arrive" /\ Step(Arrive(E.i, E.r))
     \/ E.a = "abort" /\ Step(Abort(E.i))
     \/ E.a = "respond" /\ E.i \in DOMAIN ans
        /\ LET b == Match(E.i, E) IN
           /\ b # {} => PrintT(ToJson([i |-> l, k |-> k, bad |-> b]))
           /\ b = {} /\ Step(Respond(E.i))
     \* (one whose body never arrives can only be refused)
     \* a request takes effect right before the answer that needs it to have, in any order
     \/ E.a \in {"respond", "abort"} /\ (\E i \in DOMAIN reqs : (reqs[i].aborts => Errors(reqs[i]) # {}) /\ Commit(i)) /\ UNCHANGED <<l, k>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
