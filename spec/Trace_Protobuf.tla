---------------------------- MODULE Trace_Protobuf ----------------------------
(* Recorded calls of the real Protobuf converter, decided one by one. *)
EXTENDS Protobuf, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(c, s) == IF c THEN {s} ELSE {}

\* C14
BadRead(e) ==
  LET r == ProtoRead(e.f) defs == PDefs(e.f) same == e.st = "ok" /\ r.ok /\ TEq(NoAlias(r.t), NoAlias(e.t)) IN
     If(e.st = "hang", "does not return")
     \cup If(r.ok /\ e.st = "err", "a valid file is rejected")
     \cup If(~r.ok /\ e.st = "ok", "a file without message is accepted")
     \cup If(r.ok /\ e.st = "ok" /\ ~same, "the type differs from the file")
     \cup (IF same
           THEN LET ps == AliasPairs(r.t, e.t) xs == Proxies(r.t) ns == Ns(e.f)
                    last(n) == Cardinality({m \in DOMAIN defs : LastOf(m) = LastOf(n)}) IN
                If(~OneToOne(ps), "a reference means another definition")
                \cup If(\E p \in ps : last(p[1]) = 1 /\ p[2] # ns \o "." \o LastOf(p[1]), "an alias is not the name in its package")
                \cup UNION {LET o == e.refs[i] IN
                            If(o.st # "ok", "the reference to " \o AliasOf(xs[i]) \o " does not resolve")
                            \cup If(o.st = "ok" /\ ~SameDef(o.t, AttrS(defs[AliasOf(xs[i])], Without(xs[i].a, {"alias"})), defs),
                                    "the reference to " \o AliasOf(xs[i]) \o " resolves to something else")
                            : i \in 1..Len(xs)}
           ELSE {})

\* C15
BadWrite(e) ==
  LET w == Writable(e.t) IN
     If(e.st = "hang", "does not return")
     \cup If(w.ok /\ ~w.may /\ e.st = "err", "a type that Protobuf can hold is rejected")
     \cup If(~w.ok /\ e.st = "ok", "a type that Protobuf cannot hold is written")
     \cup If(~TEq(e.after, e.t), "writing modified the type")
     \cup (IF w.ok /\ e.st = "ok"
           THEN FileDiff(e.t, e.f)
                \cup If(e.printed.st # "ok", "the printed file cannot be parsed")
                \cup If(e.printed.st = "ok" /\ e.printed.f # e.f, "the printed file parses to something else")
                \cup (IF PkgOf(AliasOf(e.t)) = ThePackage(e.t)
                      THEN If(e.back.st # "ok", "the printed file cannot be read back")
                           \cup If(e.back.st = "ok" /\ e.back.names # [i \in 1..Len(e.t.c) |-> TheName(e.t.c[i])], "the fields read back differ")
                      ELSE {})
           ELSE {})

Bad(e) == CASE e.op = "read" -> BadRead(e) [] e.op = "write" -> BadWrite(e)

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET b == Bad(Trace[l]) IN b # {} => PrintT(ToJson([i |-> l, bad |-> b]))
  /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
