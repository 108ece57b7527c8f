----------------------------- MODULE Trace_Front -----------------------------
(* A recorded history (e.events) of changes and requests with their answers.  *)
EXTENDS Front, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
BadEvent(store, x, e) ==
  IF x.ev = "get" THEN
    LET a == Answer(store, x.front, x.kind, x.name, x.arg, e.direct) IN
    IF a.st # x.st THEN {x.front \o ": outcome " \o x.st \o " instead of " \o a.st} ELSE IF a.v # x.v THEN {x.front \o ": another schema"} ELSE {}
  ELSE IF x.ev = "ls" THEN
    IF x.st # "ok" THEN {x.front \o ": listing fails"} ELSE IF Listed(store, x.kind, x.name, x.names) THEN {} ELSE {x.front \o ": another listing"}
  ELSE IF x.ev = "root" THEN
    IF x.st = "ok" /\ x.names = e.roots THEN {} ELSE {x.front \o ": another list of URLs"}
  ELSE {}
After1(store, x) ==
  IF x.ev = "put" THEN Put(store, [kind |-> x.kind, name |-> x.name, lang |-> x.arg, ver |-> x.ver])
  ELSE IF x.ev = "drop" THEN Remove(store, x.kind, x.name) ELSE store
RECURSIVE RunFrom(_, _, _)
RunFrom(store, e, i) == IF i > Len(e.events) THEN {} ELSE BadEvent(store, e.events[i], e) \cup RunFrom(After1(store, e.events[i]), e, i + 1)
Bad(e) == RunFrom(<<>>, e, 1)
TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET b == Bad(Trace[l]) IN b # {} => PrintT(ToJson([i |-> l, bad |-> b]))
  /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
