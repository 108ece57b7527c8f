--------------------------------- MODULE Sql ---------------------------------
(* Relational databases as their metadata describes them, the listings and   *)
(* column descriptions they answer, and the Recap types of their columns.    *)
(* A column is [name, type, null, def, octets, maxlen, prec, scale, dtprec,  *)
(* udt, ndims, enums]: name, type, udt strings; null BOOLEAN; enums a        *)
(* sequence of strings; the others tagged JSON values (null when absent).    *)
EXTENDS RecapTypes

MaxField == "1073741824"
SqliteMax == "2147483647"

\* the name of a type without its parameters, and its first parameter ("" if none)
TName(ty) == LET l == Lower(ty) i == FirstIndexOf(l, "(") IN IF i = 0 THEN l ELSE RStrip(SubSeq(l, 1, i - 1), " ")
Param(ty) ==
  LET i == FirstIndexOf(ty, "(") IN
  IF i = 0 THEN ""
  ELSE LET r == Drop(ty, i) k == FirstIndexOf(r, ")") IN
       IF k = 0 THEN "" ELSE RStrip(LStrip(Split(SubSeq(r, 1, k - 1), ",")[1], " "), " ")

UnitFor(p, otherwise) ==
  IF p = "" THEN otherwise
  ELSE IF p = "0" THEN "second" ELSE IF DecLeq(p, "3") THEN "millisecond" ELSE IF DecLeq(p, "6") THEN "microsecond" ELSE otherwise
JDec(x) == IF x.t = "int" THEN x.v ELSE ""
OrElse(x, d) == IF JDec(x) \in {"", "0"} THEN d ELSE JDec(x)
Stamp(u) == U(Logical(TInt("64", TRUE), "build.recap.Timestamp"), u)
Decimal(bytes, p, s) == Attr(Attr(Logical(TBytes(bytes, FALSE), "build.recap.Decimal"), "precision", p), "scale", s)

MysqlType(c) ==
  LET n == TName(c.type) o == IF JDec(c.octets) = "0" THEN "1" ELSE JDec(c.octets) IN
  CASE n = "bigint" -> Acc(TInt("64", TRUE))
    [] n \in {"int", "integer"} -> Acc(TInt("32", TRUE))
    [] n = "mediumint" -> Acc(TInt("24", TRUE))
    [] n = "smallint" -> Acc(TInt("16", TRUE))
    [] n = "tinyint" -> Acc(TInt("8", TRUE))
    [] n = "year" -> Acc(TInt("16", FALSE))
    [] n = "double" -> Acc(TFloat("64"))
    [] n = "float" -> Acc(TFloat(IF DecLeq(c.prec.v, "23") THEN "32" ELSE "64"))
    [] n \in {"varchar", "tinytext", "text", "mediumtext", "longtext", "json"} -> Acc(TString(o, TRUE))
    [] n \in {"char", "enum", "set"} -> Acc(TString(o, FALSE))
    [] n \in {"varbinary", "tinyblob", "blob", "mediumblob", "longblob"} -> Acc(TBytes(o, TRUE))
    [] n = "binary" -> Acc(TBytes(o, FALSE))
    [] n = "bit" -> Acc(TBytes("8", FALSE))
    [] n \in {"timestamp", "datetime"} -> Acc(Stamp(UnitFor(JDec(c.dtprec), "microsecond")))
    [] n \in {"dec", "decimal", "numeric"} -> Acc(Decimal("32", c.prec, c.scale))
    [] OTHER -> Rej

\* bytes for a number of bits below 2^31
BitBytes(d) == DecStr((DecVal(d) + 7) \div 8)
PgScalar(ty, c) ==
  LET n == TName(ty) o == JDec(c.octets) IN
  CASE n \in {"bigint", "int8", "bigserial", "serial8"} -> Acc(TInt("64", TRUE))
    [] n \in {"integer", "int", "int4", "serial", "serial4"} -> Acc(TInt("32", TRUE))
    [] n \in {"smallint", "int2", "smallserial", "serial2"} -> Acc(TInt("16", TRUE))
    [] n \in {"double precision", "float8"} -> Acc(TFloat("64"))
    [] n \in {"real", "float4"} -> Acc(TFloat("32"))
    [] n \in {"boolean", "bool"} -> Acc(TBool)
    [] n \in {"text", "json", "jsonb", "character varying", "varchar"} -> Acc(TString(o, TRUE))
    [] n \in {"character", "char"} -> Acc(TString(o, FALSE))
    [] n = "uuid" -> Acc(Logical(TString("36", FALSE), "build.recap.UUID"))
    [] n \in {"bytea", "bit varying"} -> Acc(TBytes(MaxField, TRUE))
    [] n = "bit" -> Acc(TBytes(IF c.maxlen.v = "8589934592" THEN MaxField ELSE BitBytes(c.maxlen.v), FALSE))
    [] n \in {"timestamp", "timestamptz", "timestamp without time zone", "timestamp with time zone"} -> Acc(Stamp(UnitFor(JDec(c.dtprec), "microsecond")))
    [] n \in {"decimal", "numeric"} -> Acc(Decimal("32", c.prec, c.scale))
    [] n = "user-defined" /\ c.enums # <<>> -> Acc(TEnum(c.enums))
    [] OTHER -> Rej
RECURSIVE NDims(_, _)
NDims(t, n) == IF n = 0 THEN TUnion(<<TNull, t>>) ELSE TList(NDims(t, n - 1))
\* the parameters of an array's values are not reported
Unsized(c) == [c EXCEPT !.octets = JInt(MaxField), !.maxlen = JInt("8589934592"), !.prec = JNull, !.scale = JNull, !.dtprec = JNull, !.enums = <<>>]
PgType(c, enforce) ==
  IF TName(c.type) = "array"
  THEN LET v == PgScalar(LStrip(Lower(c.udt), "_"), Unsized(c)) IN
       IF ~v.ok THEN Rej
       ELSE IF enforce THEN Acc(NDims(v.t, DecVal(c.ndims.v)))
       ELSE Acc(Attr(TList(TUnion(<<v.t, TProxy(c.name)>>)), "alias", JStr(c.name)))
  ELSE PgScalar(c.type, c)

SnowflakeType(c) ==
  LET n == TName(c.type) IN
  CASE n \in {"float", "float4", "float8", "double", "double precision", "real"} -> Acc(TFloat("64"))
    [] n = "boolean" -> Acc(TBool)
    [] n \in {"number", "decimal", "numeric", "int", "integer", "bigint", "smallint", "tinyint", "byteint"} ->
         Acc(Decimal("16", JInt(OrElse(c.prec, "38")), JInt(OrElse(c.scale, "0"))))
    [] n \in {"varchar", "string", "text", "nvarchar", "nvarchar2", "char varying", "nchar varying"} -> Acc(TString(OrElse(c.octets, "16777216"), TRUE))
    [] n \in {"char", "character", "nchar"} -> Acc(TString(OrElse(c.octets, "1"), TRUE))
    [] n \in {"binary", "varbinary", "blob"} -> Acc(TBytes(OrElse(c.octets, "8388608"), TRUE))
    [] n = "date" -> Acc(U(Logical(TInt("32", TRUE), "build.recap.Date"), "day"))
    [] n \in {"timestamp", "timestamp_ltz", "timestamp_ntz", "timestamp_tz", "datetime"} -> Acc(Stamp(UnitFor(Param(c.type), "nanosecond")))
    [] n = "time" -> Acc(U(Logical(TInt("32", TRUE), "build.recap.Time"), UnitFor(Param(c.type), "nanosecond")))
    [] OTHER -> Rej

\* https://www.sqlite.org/datatype3.html#determination_of_column_affinity
Affinity(ty) ==
  LET u == Upper(ty) IN
  CASE HasSub(u, "INT") -> "integer"
    [] HasSub(u, "CHAR") \/ HasSub(u, "CLOB") \/ HasSub(u, "TEXT") -> "text"
    [] HasSub(u, "BLOB") \/ u = "" -> "blob"
    [] HasSub(u, "REAL") \/ HasSub(u, "FLOA") \/ HasSub(u, "DOUB") -> "real"
    [] OTHER -> "numeric"
SqliteType(c) ==
  LET p == Param(c.type) size == IF p \in {"", "0"} \/ DecLeq(SqliteMax, p) THEN SqliteMax ELSE p IN
  CASE Affinity(c.type) = "integer" -> Acc(TInt("64", TRUE))
    [] Affinity(c.type) = "text" -> Acc(TString(size, TRUE))
    [] Affinity(c.type) = "blob" -> Acc(TBytes(size, TRUE))
    [] Affinity(c.type) = "real" -> Acc(TFloat(IF p \notin {"", "0"} /\ DecLeq(p, "23") THEN "32" ELSE "64"))
    [] OTHER -> Acc(TUnion(<<TNull, TInt("64", TRUE), TFloat("64"), TString(SqliteMax, TRUE), TBytes(SqliteMax, TRUE)>>))

ColType(sys, c, enforce) ==
  CASE sys = "mysql" -> MysqlType(c)
    [] sys = "postgresql" -> PgType(c, enforce)
    [] sys = "snowflake" -> SnowflakeType(c)
    [] sys = "sqlite" -> SqliteType(c)

\* the field of a column whose type is t
Field(c, t) ==
  LET u == IF c.null THEN MakeNullable(t) ELSE t
      d == IF c.null \/ c.def # JNull THEN Attr(u, "default", c.def) ELSE u
  IN Attr(d, "name", JStr(c.name))
StructOf(sys, cols, enforce) ==
  LET r == [i \in 1..Len(cols) |-> ColType(sys, cols[i], enforce)]
  IN IF \E i \in 1..Len(r) : ~r[i].ok THEN Rej ELSE Acc(TStruct([i \in 1..Len(r) |-> Field(cols[i], r[i].t)]))

------------------------------------------------------------------------------
(* A database: sequence of [cat, sch, tab, cols].  MySQL and SQLite have one *)
(* catalog, SQLite one schema.                                               *)
Tables(db, cat, sch) == LET r == SelectSeq(db, LAMBDA e : e.cat = cat /\ e.sch = sch) IN {r[i].tab : i \in 1..Len(r)}
TableOf(db, cat, sch, tab) == {i \in 1..Len(db) : db[i].cat = cat /\ db[i].sch = sch /\ db[i].tab = tab}
=============================================================================
