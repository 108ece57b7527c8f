------------------------------- MODULE MC_Sql -------------------------------
(* Tables of up to MaxCols columns of every type the databases report.       *)
EXTENDS Sql, Json, IOUtils
CONSTANTS MaxCols, Pairs
VARIABLES sys, cols
vars == <<sys, cols>>

Z == [name |-> "", type |-> "", null |-> FALSE, def |-> JNull, octets |-> JNull, maxlen |-> JNull, prec |-> JNull, scale |-> JNull,
      dtprec |-> JNull, udt |-> "", ndims |-> JInt("0"), enums |-> <<>>]
Ty0(t) == [Z EXCEPT !.type = t]
I(s) == JInt(s)
Sized(ts, os) == {[Z EXCEPT !.type = t, !.octets = I(o), !.maxlen = I(o)] : t \in ts, o \in os}
DecCols(ts) == {[Z EXCEPT !.type = t, !.prec = I(p), !.scale = I(s)] : t \in ts, p \in {"1", "38", "65"}, s \in {"0", "30"}}
TimeCols(ts) == {[Z EXCEPT !.type = t, !.dtprec = I(p)] : t \in ts, p \in {"0", "1", "2", "3", "4", "5", "6"}}

Pool(s) ==
  CASE s = "mysql" ->
       {Ty0(t) : t \in {"bigint", "INT", "integer", "MediumInt", "smallint", "TINYINT", "double", "year", "json", "bit", "geometry", "point", "foo"}}
       \cup {[Z EXCEPT !.type = "float", !.prec = I(p)] : p \in {"1", "12", "22", "23", "24", "53"}}
       \cup Sized({"varchar", "VARCHAR", "char", "enum", "set", "text", "tinytext", "mediumtext", "longtext", "binary", "varbinary", "blob", "tinyblob", "mediumblob", "longblob"}, {"1", "255", "65535", "4294967295"})
       \cup DecCols({"decimal", "NUMERIC", "dec"}) \cup TimeCols({"timestamp", "DATETIME"})
    [] s = "postgresql" ->
       {Ty0(t) : t \in {"bigint", "INTEGER", "int8", "int", "int4", "int2", "smallint", "smallserial", "serial", "bigserial", "serial2", "serial4", "serial8", "double precision", "float8",
                        "real", "float4", "Boolean", "uuid", "bytea", "json", "jsonb", "interval", "money", "inet", "xml", "USER-DEFINED", "tsvector"}}
       \cup Sized({"character varying", "varchar", "character", "CHAR", "text"}, {"1", "1020", "1073741824"})
       \cup {[Z EXCEPT !.type = t, !.maxlen = I(n)] : t \in {"bit", "bit varying"}, n \in {"1", "7", "8", "9", "16", "17", "64", "83886080"}}
       \cup DecCols({"numeric", "decimal"}) \cup {Ty0("numeric")}
       \cup TimeCols({"timestamp", "timestamp without time zone", "TIMESTAMP WITH TIME ZONE"})
       \cup {[Z EXCEPT !.type = "USER-DEFINED", !.udt = "mood", !.enums = e] : e \in {<<"b">>, <<"sad", "ok", "happy">>, <<"Z", "a b", "M">>}}
       \cup {[Z EXCEPT !.type = "ARRAY", !.udt = u, !.ndims = I(n)] : n \in {"1", "2", "3"}, u \in {"_int2", "_int4", "_int8", "_float4", "_float8", "_text", "_varchar", "_bool", "_uuid",
              "_jsonb", "_bytea", "_bit", "_numeric", "_timestamp", "_timestamptz", "_inet", "_mood", "_bitmask", "_charclass", "_timestamps"}}
    [] s = "snowflake" ->
       {Ty0(t) : t \in {"FLOAT", "float4", "float8", "DOUBLE", "double precision", "real", "BOOLEAN", "NUMBER", "int", "INTEGER", "bigint", "smallint", "tinyint", "byteint",
                        "TEXT", "VARCHAR", "string", "nvarchar", "nvarchar2", "char varying", "nchar varying", "CHAR", "character", "nchar", "BINARY", "varbinary", "blob", "DATE", "VARIANT", "OBJECT", "ARRAY", "geography"}}
       \cup {Ty0(t \o p) : t \in {"timestamp", "TIMESTAMP_NTZ", "timestamp_ltz", "Timestamp_TZ", "datetime", "time", "TIME"}, p \in {"", "(0)", "(1)", "(3)", "(4)", "(6)", "(7)", "(9)"}}
       \cup Sized({"TEXT", "varchar", "VARCHAR(10)", "char", "CHAR(3)", "string", "binary", "BLOB"}, {"1", "16777216", "134217728"})
       \cup DecCols({"NUMBER", "decimal", "numeric", "NUMBER(38,0)", "int"})
    [] s = "sqlite" ->
       {Ty0(t \o p) : p \in {"", "(1)", "(23)", "(24)", "(255)"}, t \in {"INTEGER", "int", "TinyInt", "UNSIGNED BIG INT", "FLOATING POINT", "CHARACTER", "VARYING CHARACTER", "CHARACTER VARYING", "NVARCHAR",
                                                       "TEXT", "clob", "BLOB", "REAL", "double precision", "Float", "NUMERIC", "DECIMAL", "boolean", "DATE", "STRING", "ANY", "charint"}}
       \cup {Ty0(t) : t \in {"", "DECIMAL(10,5)", "NUMERIC(8, 2)", "FLOAT(10, 2)", "FLOAT( 10 )", "VARCHAR (30)", "DOUBLE(53,10)"}}
\* one per kind, for combinations
Few(s) ==
  CASE s = "mysql" -> {Ty0("bigint"), [Z EXCEPT !.type = "varchar", !.octets = I("40")], [Z EXCEPT !.type = "decimal", !.prec = I("10"), !.scale = I("2")]}
    [] s = "postgresql" -> {Ty0("integer"), [Z EXCEPT !.type = "ARRAY", !.udt = "_int4", !.ndims = I("2")], [Z EXCEPT !.type = "USER-DEFINED", !.udt = "mood", !.enums = <<"b", "a">>]}
    [] s = "snowflake" -> {Ty0("BOOLEAN"), Ty0("time(3)"), [Z EXCEPT !.type = "NUMBER", !.prec = I("10"), !.scale = I("2")]}
    [] s = "sqlite" -> {Ty0("INTEGER"), Ty0("NUMERIC"), Ty0("VARCHAR(7)"), Ty0("")}
Names == <<"id", "b.c", "b_c", "D e">>
Variants(c) == {[c EXCEPT !.null = n, !.def = d] : n \in BOOLEAN, d \in {JNull, JStr("0"), JStr("")}}
Pick(s, k) == IF k = 0 /\ ~Pairs THEN UNION {Variants(c) : c \in Pool(s)} ELSE UNION {Variants(c) : c \in Few(s)}

Init == sys \in {"mysql", "postgresql", "snowflake", "sqlite"} /\ cols = <<>>
Next == /\ Len(cols) < MaxCols /\ sys' = sys
        /\ \E c \in Pick(sys, Len(cols)) : cols' = Append(cols, [c EXCEPT !.name = Names[Len(cols) + 1]])
Spec == Init /\ [][Next]_vars

R(e) == StructOf(sys, cols, e)
OnePerColumn == \A e \in BOOLEAN : LET r == R(e) IN r.ok =>
  /\ [i \in 1..Len(r.t.c) |-> r.t.c[i].a["name"].v] = [i \in 1..Len(cols) |-> cols[i].name]
  /\ \A i \in 1..Len(cols) : cols[i].null => IsNullable(r.t.c[i])
  /\ \A i \in 1..Len(cols) : (Has(r.t.c[i].a, "default") <=> (cols[i].null \/ cols[i].def # JNull)) /\ (Has(r.t.c[i].a, "default") => r.t.c[i].a["default"] = cols[i].def)
  /\ AllSizesOk(r.t)
Emit == cols # <<>> => PrintT(ToJson([sys |-> sys, cols |-> cols]))
=============================================================================
