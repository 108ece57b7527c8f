------------------------------ MODULE Trace_Hive ------------------------------
(* Recorded reads of Hive tables: e.name, e.cols, e.want (were statistics    *)
(* requested), e.st, e.t the answer.                                         *)
EXTENDS Hive, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(c, s) == IF c THEN {s} ELSE {}
\* a statistic without a value is not there; the default of a column that is always null goes without saying
Stats(f) == [k \in {n \in DOMAIN f.a \cap StatNames : f.a[n].t # "null"} |-> f.a[k]]
Plain(f) == LET g == Unattr(f, StatNames) IN IF g.k = "null" THEN Unattr(g, {"default"}) ELSE g
Bad(e) ==
  IF e.st # "ok" THEN {"a table is not read (" \o e.st \o ")"}
  ELSE IF e.t.k # "struct" THEN {"the result is not a struct"}
  ELSE If(Get(e.t.a, "name", JNull) # JStr(e.name), "the struct is not named after the table")
       \cup (IF Len(e.t.c) # Len(e.cols) THEN {"there is not one field per column"}
             ELSE UNION {LET x == HiveField(e.cols[i], e.want) f == e.t.c[i] w == " of " \o e.cols[i].name IN
                         If(Get(f.a, "name", JNull) # x.a["name"], "the name" \o w)
                         \cup If(Get(f.a, "doc", JNull) # Get(x.a, "doc", JNull), "the comment" \o w)
                         \cup If(~AEq(Stats(f), Stats(x)), "the statistics" \o w)
                         \cup If(~TEq(Unattr(Plain(f), {"name", "doc"}), Unattr(Plain(x), {"name", "doc"})), "the type" \o w)
                         : i \in 1..Len(e.cols)})
TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET b == Bad(Trace[l]) IN b # {} => PrintT(ToJson([i |-> l, bad |-> b]))
  /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
