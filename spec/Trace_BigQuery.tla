--------------------------- MODULE Trace_BigQuery ---------------------------
(* Recorded reads of BigQuery schemas: e.fs the fields, e.st, e.t the answer *)
EXTENDS BigQuery, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(c, s) == IF c THEN {s} ELSE {}
Bad(e) ==
  LET x == BqStruct(e.fs) IN
     If(e.st = "hang", "does not return")
     \cup If(x.ok /\ e.st = "err", "a documented schema is rejected")
     \cup If(~x.ok /\ e.st = "ok", "an unknown field type is read as something")
     \cup (IF x.ok /\ e.st = "ok"
           THEN IF e.t.k # "struct" \/ Len(e.t.c) # Len(e.fs) THEN {"there is not one field per field"}
                ELSE UNION {If(~TEq(e.t.c[i], x.t.c[i]), "the type of field " \o DecStr(i) \o ", a " \o e.fs[i].mode \o " " \o e.fs[i].type \o ", is not the documented one") : i \in 1..Len(e.fs)}
           ELSE {})
TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET b == Bad(Trace[l]) IN b # {} => PrintT(ToJson([i |-> l, bad |-> b]))
  /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
