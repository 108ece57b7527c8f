---------------------------- MODULE Trace_Types ----------------------------
(* Recorded calls of the real type code, decided one by one.  A record names *)
(* the operation, its input and what was observed; Bad gives the violated    *)
(* clauses.  Every record is consumed.                                       *)
EXTENDS RecapTypes, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

If(c, s) == IF c THEN {s} ELSE {}

RECURSIVE PlainJson(_)
PlainJson(x) ==
  CASE x.t = "arr" -> \A i \in 1..Len(x.c) : PlainJson(x.c[i])
    [] x.t = "obj" -> \A k \in DOMAIN x.m : PlainJson(x.m[k])
    [] OTHER -> x.t # "py"

\* C06: to_dict in all four modes, and from_dict of each result
BadRoundTrip(e) ==
  LET one(o) ==
        IF o.st # "ok" THEN {"a valid type cannot be written (" \o o.st \o ")"}
        ELSE LET r == FromDict(o.d) IN
             If(~PlainJson(o.d), "the description is not plain JSON")
             \cup If(~r.ok, "the written description is not well-formed")
             \cup If(r.ok /\ ~EquivT(r.t, e.t), "the written description denotes a different type")
             \cup If(o.back.st # "ok", "the written description is not read back (" \o o.back.st \o ")")
             \cup If(o.back.st = "ok" /\ ~(WellShaped(o.back.t) /\ EquivT(o.back.t, e.t)),
                     "the type read back differs")
  IN UNION {{o.mode \o ": " \o s : s \in one(o)} : o \in Range(e.outs)}
     \cup If(~TEq(e.after, e.t), "writing modified the type")

\* C29: a type made by one of the readers, described, read back and stored.
\* References to the source's own types still denote what they did.
RECURSIVE Undeclared(_)
Undeclared(t) == IF t.k = "proxy" THEN t ELSE [Unattr(t, {"alias"}) EXCEPT !.c = [i \in 1..Len(t.c) |-> Undeclared(t.c[i])]]
UReg(t) == LET r == RegOf(t) IN [n \in DOMAIN r |-> Undeclared(r[n])]
\* the position of null doesn't matter
NullFirst(t) ==
  LET n == IF t.k = "union" THEN IndexOf(t.c, IsPlainNull) ELSE 0
  IN IF n = 0 THEN t ELSE [t EXCEPT !.c = <<TNull>> \o SubSeq(t.c, 1, n - 1) \o SubSeq(t.c, n + 1, Len(t.c))]
Denotes(t) == NullFirst(Undeclared(Unattr(Definition(t), {"name"})))
SameRefs(before, rb, after, ra) ==
  \A i \in 1..Len(after) :
    LET old == {j \in 1..Len(before) : before[j].alias = after[i].alias} IN
    (old # {} /\ after[i].alias \notin BuiltinNames) => LET b == before[CHOOSE j \in old : TRUE] IN
                /\ b.st = after[i].st
                /\ b.st = "ok" => EquivR(Denotes(b.t), rb, Denotes(after[i].t), ra)
BadProduced(e) ==
  IF e.read # "ok" THEN {"reading does not return"}
  ELSE IF ~WellShaped(e.t) THEN {"reading makes something else than a Recap type"}
  ELSE If(~AllSizesOk(e.t), "the type read has a size out of range")
       \cup If(~AliasesOk(e.t), "the type read declares an alias twice or one that is not a fully qualified name")
       \cup BadRoundTrip(e)
       \cup UNION {If(o.back.st = "ok" /\ ~SameRefs(e.refs, UReg(e.t), o.refs, UReg(o.back.t)), o.mode \o ": a reference denotes another type after the round trip") : o \in Range(e.outs)}
       \cup If(e.stored.st # "ok", "the type read cannot be stored and fetched (" \o e.stored.st \o ")")
       \cup If(e.stored.st = "ok" /\ ~(WellShaped(e.stored.t) /\ EquivT(e.stored.t, e.t) /\ SameRefs(e.refs, UReg(e.t), e.stored.refs, UReg(e.stored.t))),
               "the type fetched from the registry differs from the one read")

\* C07: from_dict of an arbitrary description
BadParse(e) ==
  LET r == FromDict(e.d) IN
     If(e.st = "hang", "does not return")
     \cup If(r.ok /\ e.st = "err", "a well-formed description is rejected")
     \cup If(~r.ok /\ e.st = "ok", "a malformed description is accepted")
     \cup If(r.ok /\ e.st = "ok" /\ ~TEq(r.t, e.t), "the type differs from the description")
     \cup If(~JEq(e.d, e.after), "the description was modified")

\* C09: make_nullable and is_nullable
BadNullable(e) ==
  LET m == MakeNullable(e.t) IN
     If(e.st # "ok", "make_nullable fails")
     \cup If(e.st = "ok" /\ ~TEq(e.r, m), "the nullable type differs")
     \cup If(e.st = "ok" /\ e.rn # "true", "the result is not reported nullable")
     \cup If(e.isn # (IF IsNullable(e.t) THEN "true" ELSE "false"), "nullability misreported")
     \cup If(~TEq(e.after, e.t), "the original was modified")
     \cup If(~TEq(e.after2, e.t), "the original changed when the result was modified")
     \cup If(e.st2 # "ok" \/ ~TEq(e.r2, MakeNullable(m)), "a second application differs")
     \cup If(e.st2 = "ok" /\ ~TEq(e.r3, m), "a second application modified the first result")
     \cup If(e.opt # "none" /\ e.opt # (IF IsOptional(e.t) THEN "true" ELSE "false"),
             "optional misreported")

Bad(e) ==
  CASE e.op = "roundtrip" -> BadRoundTrip(e)
    [] e.op = "parse" -> BadParse(e)
    [] e.op = "produced" -> BadProduced(e)
    [] e.op = "nullable" -> BadNullable(e)

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET b == Bad(Trace[l]) IN b # {} => PrintT(ToJson([i |-> l, bad |-> b]))
  /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
