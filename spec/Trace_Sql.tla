------------------------------ MODULE Trace_Sql ------------------------------
(* Recorded reads of tables through the real converters and clients.         *)
EXTENDS Sql, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(c, s) == IF c THEN {s} ELSE {}

RECURSIVE NoAlias(_)
NoAlias(t) == [k |-> t.k, a |-> Without(t.a, {"alias"}), c |-> [i \in 1..Len(t.c) |-> NoAlias(t.c[i])]]
\* the lists of a field that refer to themselves: the list inside the field's type
RECURSIVE SelfLists(_)
SelfLists(t) == (IF t.k = "list" /\ Has(t.a, "alias") THEN {t} ELSE {}) \cup UNION {SelfLists(t.c[i]) : i \in 1..Len(t.c)}
Own(t) == Without(t.a, {"name", "default"})

\* C16: one read of a table; the same table may be read several times
ReadDiff(e, r) ==
  LET exp == StructOf(e.sys, e.cols, e.enforce) n == Len(e.cols) IN
  IF ~exp.ok THEN {}
  ELSE IF r.st # "ok" THEN {"a table is not read (" \o r.st \o ")"}
  ELSE IF r.t.k # "struct" \/ Len(r.t.c) # n THEN {"there is not one field per column"}
  ELSE UNION {LET f == r.t.c[i] c == e.cols[i] x == exp.t.c[i] IN
              If(Get(f.a, "name", JNull) # JStr(c.name), "field " \o DecStr(i) \o " does not have the column's name")
              \cup If(IsNullable(f) # IsNullable(x), "nullability of " \o c.name)
              \cup If(Get(f.a, "default", [t |-> "none"]) # Get(x.a, "default", [t |-> "none"]), "default of " \o c.name)
              \cup If(~TEq(NoAlias(f), NoAlias(x)), "type of " \o c.name)
              : i \in 1..n}
BadTable(e) ==
  UNION {LET r == e.reads[k] IN
         {"read " \o DecStr(k) \o ": " \o w : w \in ReadDiff(e, r)}
         \cup If(k > 1 /\ (r.st # e.reads[1].st \/ ~TEq(r.t, e.reads[1].t)), "read " \o DecStr(k) \o " differs from the first")
         : k \in 1..Len(e.reads)}

\* C17: the type of one column that is not null and has no default
BadType(e) ==
  LET c == e.cols[1] exp == ColType(e.sys, c, e.enforce) IN
     If(e.st = "hang", "does not return")
     \cup If(exp.ok /\ e.st = "err", "a documented type is rejected")
     \cup If(~exp.ok /\ e.st = "ok", "an unknown type is read as something")
     \cup (IF exp.ok /\ e.st = "ok"
           THEN LET f == IF e.t.k = "struct" /\ Len(e.t.c) = 1 THEN Unattr(e.t.c[1], {"name"}) ELSE TNull
                    ls == SelfLists(f) IN
                If(~TEq(NoAlias(f), NoAlias(exp.t)), "the type of " \o c.type \o " is not the documented one")
                \cup If(AliasOf(exp.t) # "" /\ (ls = {} \/ \E x \in ls : ~(\E i \in 1..Len(x.c[1].c) : x.c[1].c[i].k = "proxy" /\ AliasOf(x.c[1].c[i]) = AliasOf(x))),
                        "the list does not refer to itself")
                \cup If(\E i \in 1..Len(e.refs) : e.refs[i].st # "ok" \/ ~TEq(NoAlias(e.refs[i].t), NoAlias(Unattr(exp.t, {"alias"}))), "the list's reference to itself does not resolve to it")
           ELSE {})

\* C26: listing and reading in a database
Expected(e) ==
  CASE e.call = "tables" -> [ok |-> TRUE, names |-> {e.db[i].tab : i \in {i \in 1..Len(e.db) : e.db[i].cat = e.args[1] /\ e.db[i].sch = e.args[2]}}]
    [] e.call = "schemas" -> [ok |-> TRUE, names |-> {e.db[i].sch : i \in {i \in 1..Len(e.db) : e.db[i].cat = e.args[1]}}]
    [] e.call = "catalogs" -> [ok |-> TRUE, names |-> {e.db[i].cat : i \in 1..Len(e.db)}]
BadQuery(e) ==
  IF e.call = "schema"
  THEN LET at == TableOf(e.db, e.args[1], e.args[2], e.args[3]) IN
       IF at = {}
       THEN If(e.st = "ok" /\ Len(e.t.c) # 0, "another table is read")
       ELSE LET cs == e.db[CHOOSE i \in at : TRUE].cols x == StructOf(e.sys, cs, FALSE) IN
            IF e.st # "ok" THEN {"an existing table cannot be read"}
            ELSE If(Len(e.t.c) # Len(cs) \/ \E i \in 1..Len(cs) : i <= Len(e.t.c) /\ Get(e.t.c[i].a, "name", JNull) # JStr(cs[i].name), "another table is read")
  ELSE LET x == Expected(e) IN
       IF e.st # "ok" THEN {"a listing fails"}
       ELSE If(Range(e.names) # x.names, "the listing is not what the database has")
            \cup If(Len(e.names) # Cardinality(x.names), "the listing repeats names")
            \cup If(e.names # e.reported, "the listing is not in the database's order")
BadStatements(e) ==
     If(e.texts # e.texts0, "the statement depends on the names")
     \cup If(e.changed, "the database was changed")

Bad(e) == CASE e.op = "table" -> BadTable(e) [] e.op = "type" -> BadType(e) [] e.op = "query" -> BadQuery(e) \cup BadStatements(e)

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET b == Bad(Trace[l]) IN b # {} => PrintT(ToJson([i |-> l, bad |-> b]))
  /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
