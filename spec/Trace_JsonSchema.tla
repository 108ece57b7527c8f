--------------------------- MODULE Trace_JsonSchema ---------------------------
(* Recorded calls of the real JSON schema converter, decided one by one. *)
EXTENDS JsonSchema, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(c, s) == IF c THEN {s} ELSE {}
RECURSIVE Proxies(_)
Proxies(t) == IF t.k = "proxy" THEN <<t>> ELSE FlattenSeq2([i \in 1..Len(t.c) |-> Proxies(t.c[i])])

\* C12
BadRead(e) ==
  LET r == JsonRead(e.s, e.docs) IN
     If(e.st = "hang", "does not return")
     \cup If(r.ok /\ e.st = "err", "a valid schema is rejected")
     \cup If(~r.ok /\ e.st = "ok", "an unsupported schema is accepted")
     \cup If(r.ok /\ e.st = "ok" /\ ~TEq(r.t, e.t), "the type differs from the schema")
     \cup (IF r.ok /\ e.st = "ok" /\ TEq(r.t, e.t)
           THEN LET ps == Proxies(r.t) reg == JsonReg(r) IN
                If(Len(e.refs) # Len(ps), "references differ")
                \cup (IF Len(e.refs) = Len(ps)
                      THEN UNION {LET p == ps[i] o == e.refs[i] IN
                                  If(o.st # "ok", "the reference to " \o AliasOf(p) \o " does not resolve")
                                  \cup If(o.st = "ok" /\ ~TEq(Unattr(o.t, {"name"}), Unattr(Resolve1(p, reg), {"name"})),
                                          "the reference to " \o AliasOf(p) \o " resolves to something else")
                                  : i \in {i \in 1..Len(ps) : IsFqn(AliasOf(ps[i])) /\ Has(reg, AliasOf(ps[i]))}}
                      ELSE {})
           ELSE {})

\* C13
BadWrite(e) ==
     If(e.st = "hang", "does not return")
     \cup If(Nameless(e.t) /\ e.st = "ok", "a field without a name is written")
     \cup If(~Nameless(e.t) /\ ~e.dangling /\ e.st = "err", "a type is rejected")
     \cup If(~TEq(e.after, e.t), "writing modified the type")
     \cup (IF e.st = "ok"
           THEN If(Undefined(e.s) # {}, "a reference without definition")
                \cup (IF Nameless(e.t) THEN {} ELSE Diff(e.t, e.s, NoA, Defs(e.s), RegOf(e.t), "$") \cup DefsDiff(e.t, e.s))
           ELSE {})

Bad(e) == CASE e.op = "read" -> BadRead(e) [] e.op = "write" -> BadWrite(e)

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET b == Bad(Trace[l]) IN b # {} => PrintT(ToJson([i |-> l, bad |-> b]))
  /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
