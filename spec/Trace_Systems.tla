---------------------------- MODULE Trace_Systems ----------------------------
(* Recorded listings and reads: e.op, e.url, e.cfgs, e.strict; the objects    *)
(* of the system that the URL's scheme names (e.objs); the outcome e.st with  *)
(* e.names (children, or columns) and e.stats, and e.conns: the connections   *)
(* that were opened, each with its system and settings.                       *)
EXTENDS Systems, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(c, s) == IF c THEN {s} ELSE {}
Bad(e) ==
  LET u == ParseUrl(e.url) sys == SystemOf(u.scheme) v == Verdict(u, e.op) IN
  IF v = "open" THEN {}
  ELSE IF v = "refuse" THEN If(e.st # "err", "a URL that names nothing is not refused") \cup If(sys = "none" /\ Len(e.conns) > 0, "a connection is opened for an unsupported scheme")
  ELSE LET w == OpenUrl(u, e.op)
           cs == {i \in 1..Len(e.cfgs) : Covers(ParseUrl(e.cfgs[i]), w)}
       IN IF cs = {} /\ e.strict
          THEN If(e.st # "err", "a URL that is not configured is not refused") \cup If(Len(e.conns) > 0, "a connection is opened for a URL that is not configured")
          ELSE IF e.st # "ok" THEN {"the URL is not " \o (IF e.op = "ls" THEN "listed" ELSE "read") \o " (" \o e.st \o ")"}
          ELSE LET o == Object(u, e.op)
                   right == IF e.op = "ls" THEN Children(e.objs, o) ELSE Columns(e.objs, o)
                   opens == IF cs = {} THEN {w} ELSE {Completed(ParseUrl(e.cfgs[i]), w) : i \in cs}
               IN If(Range(e.names) # right \/ Len(e.names) # Cardinality(right), "something else is " \o (IF e.op = "ls" THEN "listed" ELSE "read"))
                  \cup If(sys = "hive" /\ e.op = "schema" /\ e.stats # ("include_stats" \in DOMAIN Query(u.query)), "the statistics are not as requested")
                  \cup (IF sys = "file" THEN If(Len(e.conns) # 0, "a connection is opened for a file")
                        ELSE IF Len(e.conns) # 1 THEN {"not exactly one connection is opened"}
                        ELSE If(e.conns[1].sys # sys, "another system is used")
                             \cup (IF e.conns[1].sys = sys /\ \A x \in opens : SettingsBad(sys, x, e.conns[1].set) # {}
                                   THEN SettingsBad(sys, CHOOSE x \in opens : TRUE, e.conns[1].set) ELSE {}))
TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET b == Bad(Trace[l]) IN b # {} => PrintT(ToJson([i |-> l, bad |-> b]))
  /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
