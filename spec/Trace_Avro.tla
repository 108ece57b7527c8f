----------------------------- MODULE Trace_Avro -----------------------------
(* Recorded calls of the real Avro converter, decided one by one. *)
EXTENDS Avro, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(c, s) == IF c THEN {s} ELSE {}

\* C10
BadRead(e) ==
  LET r == AvroRead(e.s) IN
     If(e.st = "hang", "does not return")
     \cup If(r.ok /\ e.st = "err", "a valid schema is rejected")
     \cup If(~r.ok /\ e.st = "ok", "an unsupported schema is accepted")
     \cup If(r.ok /\ e.st = "ok" /\ ~TEq(r.t, e.t), "the type differs from the schema")
     \cup (IF r.ok /\ e.st = "ok" /\ TEq(r.t, e.t)
           THEN LET ps == Proxies(r.t) reg == AvroReg(r) IN
                If(Len(e.refs) # Len(ps), "references differ")
                \cup (IF Len(e.refs) = Len(ps)
                      THEN UNION {LET p == ps[i] o == e.refs[i] known == Has(reg, AliasOf(p)) IN
                                  If(known /\ o.st # "ok", "the reference to " \o AliasOf(p) \o " does not resolve")
                                  \cup If(~known /\ o.st = "ok", "a reference to an undefined name resolves")
                                  \cup If(known /\ o.st = "ok" /\ ~TEq(o.t, Resolve1(p, reg)),
                                          "the reference to " \o AliasOf(p) \o " resolves to something else")
                                  : i \in 1..Len(ps)}
                      ELSE {})
           ELSE {})

\* C11
BadWrite(e) ==
  LET r == AvroWrite(e.t) IN
     If(e.st = "hang", "does not return")
     \cup If(r.ok /\ e.st = "err", "a type that Avro can hold is rejected")
     \cup If(~r.ok /\ e.st = "ok", "a type that Avro cannot hold is written")
     \cup If(r.ok /\ e.st = "ok" /\ ~JEq(ANorm(ObjOf(r.m)), ANorm(e.s)), "the written schema differs")
     \cup If(~TEq(e.after, e.t), "writing modified the type")
     \cup (IF r.ok /\ e.st = "ok" /\ e.t.k = "struct"
           THEN LET b == AvroRead(e.s) IN
                If(e.back.st # "ok", "the written schema cannot be read back")
                \cup If(e.back.st = "ok" /\ ~(b.ok /\ Wide(e.t, RegOf(e.t), e.back.t, AvroReg(b))), "the schema read back is narrower")
                \cup If(\E i \in 1..Len(e.back.refs) : e.back.refs[i].st # "ok", "a reference in the schema read back does not resolve")
           ELSE {})

Bad(e) == CASE e.op = "read" -> BadRead(e) [] e.op = "write" -> BadWrite(e)

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET b == Bad(Trace[l]) IN b # {} => PrintT(ToJson([i |-> l, bad |-> b]))
  /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
