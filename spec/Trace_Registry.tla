--------------------------- MODULE Trace_Registry ---------------------------
(* Recorded histories of RegistryStorage objects as behaviours of Registry.   *)
EXTENDS RegistryObs, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k
tvars == <<store, rout, l, k>>
E == Trace[l].events[k]
Act == RAct(E)
Match == RMatch(E, Trace[l].failed)

Last == k = Len(Trace[l].events)
TraceInit == RInit /\ l = 1 /\ k = 1
TraceNext ==
  IF l > Len(Trace) THEN UNCHANGED tvars
  ELSE IF k = 0 THEN store' = [x \in {} |-> TNull] /\ rout' = Absent /\ k' = 1 /\ l' = l
  ELSE /\ Act
       /\ LET b == Match IN
          IF b = {} THEN (IF Last THEN l' = l + 1 /\ k' = 0 ELSE l' = l /\ k' = k + 1)
          ELSE PrintT(ToJson([i |-> l, bad |-> {E.op \o ": " \o s : s \in b}])) /\ l' = l + 1 /\ k' = 0
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
