----------------------------- MODULE Trace_Config -----------------------------
(* Recorded runs of servers, one after another on one disk, each with its own  *)
(* configuration: what it listed and returned at first, then what it was given *)
(* to store (all acknowledged), and the files it created or changed.           *)
EXTENDS Config, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(c, s) == IF c THEN {s} ELSE {}
Below(f, root) == Len(f) > Len(root) /\ IsPrefixOf(root, f)
BadRun(disk, r) ==
  LET c == r.c IN
  IF r.st # "ok" THEN {"a server cannot be started and used with this configuration (" \o r.st \o ")"}
  ELSE
    (IF OnDisk(c)
     THEN If(Range(r.names) # Names(disk, c) \/ ~AllDistinct(r.names), "a server does not list what is in its configured storage")
          \cup UNION {If(r.read[i][1] \in Names(disk, c) /\ r.read[i][2] # Content(disk, c, r.read[i][1]), "a server does not return what is in its configured storage") : i \in 1..Len(r.read)}
          \cup If(\E i \in 1..Len(r.files) : ~Below(PathOf(r.files[i]), Root(c)), "a server writes outside of its configured storage")
          \cup If(r.puts # <<>> /\ ~\E i \in 1..Len(r.files) : Below(PathOf(r.files[i]), Root(c)), "a server does not store in its configured storage")
     ELSE LET o == Options(c) IN
          If(r.path # Root(c), "a server opens another folder than configured")
          \cup If(~({r.args[i][1] : i \in 1..Len(r.args)} = DOMAIN o /\ \A i \in 1..Len(r.args) : r.args[i][2] = o[r.args[i][1]]), "the file system does not get the configured options"))
    \cup LET us == ConfiguredUrls(c) IN
         If(Len(r.urls) # Len(us) \/ \E i \in 1..Len(us) : i <= Len(r.urls) /\ (~IsUrl(r.urls[i]) \/ ~SamePlace(ParseUrl(r.urls[i]), Listed(ParseUrl(us[i])))), "the listed URLs are not those that are configured")
RECURSIVE AllStored(_, _, _)
AllStored(disk, c, ps) == IF ps = <<>> THEN disk ELSE AllStored(Stored(disk, c, Head(ps)[1], Head(ps)[2]), c, Tail(ps))
RECURSIVE BadRuns(_, _)
BadRuns(disk, rs) == IF rs = <<>> THEN {} ELSE BadRun(disk, Head(rs)) \cup BadRuns(IF OnDisk(Head(rs).c) THEN AllStored(disk, Head(rs).c, Head(rs).puts) ELSE disk, Tail(rs))
TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET b == BadRuns(<<>>, Trace[l].runs) IN b # {} => PrintT(ToJson([i |-> l, bad |-> b]))
  /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
