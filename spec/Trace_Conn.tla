------------------------------ MODULE Trace_Conn ------------------------------
(* Recorded driver events of requests (e.events, in order), each request      *)
(* ending with "end"; e.files: requests for plain files.                      *)
EXTENDS Conn, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Range(x) == {x[i] : i \in DOMAIN x}
Bad(e) ==
  LET r == Run(Fresh, e.events, Range(e.files)) IN
  r.bad \cup (IF r.ended # 1..e.n THEN {"a request does not end"} ELSE {}) \cup (IF r.open # {} THEN {"connections stay open"} ELSE {})
TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET b == Bad(Trace[l]) IN b # {} => PrintT(ToJson([i |-> l, bad |-> b]))
  /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
