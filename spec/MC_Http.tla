------------------------------ MODULE MC_Http ------------------------------
(* Concurrent requests to one name, in every order of arrival, body delivery, *)
(* effect and answer.  The order of arrivals and deliveries is printed as a   *)
(* schedule for the real server.                                              *)
EXTENDS Http, Json
CONSTANTS NReq, Rich
VARIABLES sched, sent, first
vars == <<store, rout, reqs, ans, sched, sent, first>>

B(t) == [kind |-> "json", d |-> LongDict(t)]
Bodies == {TBool, TNull}
Bad == [kind |-> "json", d |-> JInt("3")]
Rq(m, n, v, ct, b) == [m |-> m, n |-> n, v |-> v, ct |-> ct, b |-> b]
Requests ==
  {Rq("post", "x", "", "recap", B(t)) : t \in Bodies}
  \cup {Rq("put", "x", v, "none", B(t)) : v \in {"1", "2"}, t \in Bodies}
  \cup {Rq("get", "x", v, "none", Bad) : v \in {""}}
  \cup (IF Rich THEN {Rq("put", "x", "1", "other", B(TBool)), Rq("post", "x", "", "recap", Bad),
                      Rq("versions", "x", "", "none", Bad)} ELSE {})

Init == /\ HInit /\ sched = <<>> /\ sent = {} /\ first = [i \in {} |-> 0]
NextId == Cardinality(DOMAIN first) + 1
DoArrive == /\ NextId <= NReq
            /\ \E r \in Requests : Arrive(NextId, r) /\ first' = (NextId :> r) @@ first
                                   /\ sched' = Append(sched, [a |-> "arrive", i |-> NextId, r |-> r])
            /\ UNCHANGED sent
DoDeliver(i) == /\ Publishes(reqs[i]) /\ i \notin sent /\ sent' = sent \cup {i}
                /\ sched' = Append(sched, [a |-> "deliver", i |-> i])
                /\ UNCHANGED <<store, rout, reqs, ans, first>>
DoCommit(i) == (Publishes(reqs[i]) => i \in sent) /\ Commit(i) /\ UNCHANGED <<sched, sent, first>>
DoRespond(i) == Respond(i) /\ UNCHANGED <<sched, sent, first>>
DoAbort(i) == i \notin sent /\ Publishes(reqs[i]) /\ Abort(i) /\ sched' = Append(sched, [a |-> "abort", i |-> i])
              /\ UNCHANGED <<sent, first>>
Next == DoArrive \/ \E i \in DOMAIN reqs : DoDeliver(i) \/ DoCommit(i) \/ DoRespond(i) \/ (Rich /\ DoAbort(i))
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* a published version never changes or disappears
Immutable == [][\A n \in DOMAIN store : \A v \in DOMAIN store[n] :
                n \in DOMAIN store' /\ v \in DOMAIN store'[n] /\ store'[n][v] = store[n][v]]_vars
\* every acknowledged publish is stored under the acknowledged version as sent
Acknowledged == \A i \in DOMAIN ans : (Publishes(first[i]) /\ ans[i].status = "200") =>
                  store[first[i].n][ans[i].out.v] = BodyType(first[i].b).t
\* no two acknowledged publishes share a version
NoSharing == \A i, j \in DOMAIN ans :
   (i # j /\ Publishes(first[i]) /\ Publishes(first[j]) /\ ans[i].status = "200" /\ ans[j].status = "200"
    /\ first[i].n = first[j].n) => ans[i].out.v # ans[j].out.v
\* an answer with an error comes from a request that changed nothing
ErrorsChangeNothing == [][\A i \in DOMAIN ans' \ DOMAIN ans : ans'[i].status # "200" => store' = store]_vars
Emit == (NextId > NReq /\ DOMAIN reqs = {}) => PrintT(ToJson([sched |-> sched]))
=============================================================================
