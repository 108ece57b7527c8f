---------------------------- MODULE Trace_Faults ----------------------------
(* Recorded histories with writes that fail at some step.  After a failure    *)
(* the write may or may not have taken effect completely; TLC looks for a     *)
(* behaviour of Registry that explains everything that is read afterwards.    *)
EXTENDS RegistryObs, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k
tvars == <<store, rout, l, k>>
E == Trace[l].events[k]

Act ==
  IF E.op = "faultput"
  THEN IF E.st = "ok" THEN Put(E.n, E.v, E.t) ELSE FailedPut(E.n, E.v, E.t, TRUE)
  ELSE RAct(E)
Match == IF E.op = "faultput" THEN (IF E.st = "ok" THEN MatchPut(E) ELSE {}) ELSE RMatch(E, Trace[l].failed)

TraceInit == RInit /\ l \in 1..Len(Trace) /\ k = 1
TraceNext ==
  /\ k <= Len(Trace[l].events)
  /\ Act
  /\ LET b == Match IN
     /\ b # {} => PrintT(ToJson([i |-> l, k |-> k, bad |-> {E.op \o ": " \o s : s \in b}]))
     /\ b = {}
  /\ (k = Len(Trace[l].events) => PrintT(ToJson([done |-> l])))
  /\ k' = k + 1 /\ l' = l
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
