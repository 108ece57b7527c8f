----------------------------- MODULE MC_BigQuery -----------------------------
(* Schemas of up to MaxFields fields, records nested up to Depth.            *)
EXTENDS BigQuery, Json, IOUtils
CONSTANTS MaxFields, Depth
VARIABLES open, fs     \* the fields of the records being described, outermost first
vars == <<open, fs>>

Z == [name |-> "", type |-> "", mode |-> "REQUIRED", desc |-> JNull, def |-> JNull, maxlen |-> JNull, prec |-> JNull, scale |-> JNull, fields |-> <<>>]
Plain == {"STRING", "JSON", "BYTES", "INT64", "INTEGER", "INT", "SMALLINT", "TINYINT", "BYTEINT", "FLOAT", "FLOAT64", "BOOLEAN", "BOOL", "TIMESTAMP", "DATETIME",
          "TIME", "DATE", "NUMERIC", "DECIMAL", "BIGNUMERIC", "BIGDECIMAL", "GEOGRAPHY", "INTERVAL", "RANGE", "FOO"}
Sizes(t) == IF t \in {"STRING", "JSON", "BYTES"} THEN {JNull, JInt("1"), JInt("10485760")} ELSE {JNull}
Precs(t) == IF t \in {"NUMERIC", "DECIMAL", "BIGNUMERIC", "BIGDECIMAL"} THEN {<<JNull, JNull>>, <<JInt("10"), JNull>>, <<JInt("29"), JInt("9")>>, <<JInt("1"), JInt("0")>>} ELSE {<<JNull, JNull>>}
Modes == {"REQUIRED", "NULLABLE", "REPEATED"}
Texts == {JNull, JStr(""), JStr("a b")}
All == {[Z EXCEPT !.type = t, !.mode = m, !.maxlen = s, !.prec = p[1], !.scale = p[2], !.desc = d, !.def = e] :
         t \in Plain, m \in Modes, s \in {JNull, JInt("1"), JInt("10485760")}, p \in {<<JNull, JNull>>, <<JInt("10"), JNull>>, <<JInt("29"), JInt("9")>>, <<JInt("1"), JInt("0")>>}, d \in Texts, e \in Texts}
Leaves == {f \in All : f.maxlen \in Sizes(f.type) /\ <<f.prec, f.scale>> \in Precs(f.type)}
Few == {[Z EXCEPT !.type = "STRING", !.mode = "REQUIRED"], [Z EXCEPT !.type = "NUMERIC", !.mode = "NULLABLE", !.desc = JStr("a b")], [Z EXCEPT !.type = "DATE", !.mode = "REPEATED", !.desc = JStr("c")]}
Names == <<"f", "g", "h", "i">>
Top(f) == Append(SubSeq(open, 1, Len(open) - 1), Append(open[Len(open)], [f EXCEPT !.name = Names[Len(open[Len(open)]) + 1]]))

Init == open = <<<<>>>> /\ fs = <<>>
Next ==
  \/ /\ Len(open[Len(open)]) < MaxFields
     /\ \E f \in (IF MaxFields = 1 /\ Depth = 0 THEN Leaves ELSE Few) : open' = Top(f)
     /\ fs' = fs
  \/ \* a record begins, and ends
     /\ Len(open) <= Depth /\ Len(open[Len(open)]) < MaxFields
     /\ open' = Append(open, <<>>) /\ fs' = fs
  \/ /\ Len(open) > 1
     /\ LET n == Len(open) inner == open[n] outer == SubSeq(open, 1, n - 1) IN
        \E m \in Modes, t \in {IF Len(inner) = 1 THEN "RECORD" ELSE "STRUCT"} :
          open' = Append(SubSeq(outer, 1, n - 2), Append(outer[n - 1], [Z EXCEPT !.type = t, !.mode = m, !.fields = inner, !.name = Names[Len(outer[n - 1]) + 1], !.desc = IF m = "NULLABLE" THEN JStr("rec") ELSE JNull]))
     /\ fs' = fs
Spec == Init /\ [][Next]_vars

\* one field per field, and what the mode says
RECURSIVE Shape(_, _)
Shape(t, f) ==
  /\ Get(t.a, "name", JNull) = JStr(f.name)
  /\ (f.mode = "REPEATED") <=> t.k = "list"
  /\ (f.mode = "NULLABLE") <=> IsNullable(t)
  /\ LET in == CASE f.mode = "REPEATED" -> t.c[1] [] f.mode = "NULLABLE" -> t.c[2] [] OTHER -> t
     IN f.type \in {"RECORD", "STRUCT"} => in.k = "struct" /\ Len(in.c) = Len(f.fields) /\ \A i \in 1..Len(in.c) : Shape(in.c[i], f.fields[i])
Sound == Len(open) = 1 => LET r == BqStruct(open[1]) IN r.ok => Len(r.t.c) = Len(open[1]) /\ (\A i \in 1..Len(r.t.c) : Shape(r.t.c[i], open[1][i])) /\ AllSizesOk(r.t)
Emit == (Len(open) = 1 /\ open[1] # <<>>) => PrintT(ToJson([fs |-> open[1]]))
=============================================================================
