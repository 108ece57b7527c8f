--------------------------------- MODULE Hive ---------------------------------
(* Hive tables, their column statistics, and the Recap types read from them. *)
(* A Hive type is [h, n, names, c]: its name, its parameters (decimal        *)
(* strings), the names of a struct's fields, and the types inside.           *)
EXTENDS RecapTypes

Nullable(t) == Ty("union", [default |-> JNull], <<TNull, t>>)
HStamp(tz) == Attr(U(Logical(TInt("64", TRUE), "build.recap.Timestamp"), "nanosecond"), "timezone", tz)
HInterval(u) == Attr(U(Logical(TBytes("12", TRUE), "build.recap.Interval"), u), "signed", JTrue)

RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>>
            ELSE LET n == Len(s) d == Dedup(SubSeq(s, 1, n - 1)) IN IF \E i \in 1..Len(d) : TEq(d[i], s[n]) THEN d ELSE Append(d, s[n])
\* the alternatives of a type that stands in a union
Alternatives(t) == IF t.k = "union" THEN t.c ELSE <<t>>

RECURSIVE HiveType(_)
HiveType(h) ==
  LET in == [i \in 1..Len(h.c) |-> HiveType(h.c[i])] IN
  CASE h.h = "void" -> TNull
    [] h.h = "uniontype" -> Ty("union", [default |-> JNull], Dedup(<<TNull>> \o FlattenSeq2([i \in 1..Len(in) |-> Alternatives(in[i])])))
    [] OTHER -> Nullable(
         CASE h.h = "boolean" -> TBool
           [] h.h = "tinyint" -> TInt("8", TRUE)
           [] h.h = "smallint" -> TInt("16", TRUE)
           [] h.h = "int" -> TInt("32", TRUE)
           [] h.h = "bigint" -> TInt("64", TRUE)
           [] h.h = "float" -> TFloat("32")
           [] h.h = "double" -> TFloat("64")
           [] h.h = "string" -> TString("", TRUE)
           [] h.h = "binary" -> TBytes("2147483647", TRUE)
           [] h.h = "decimal" -> Attr(Attr(Logical(TBytes("16", FALSE), "build.recap.Decimal"), "precision", JInt(h.n[1])), "scale", JInt(h.n[2]))
           [] h.h = "varchar" -> TString(h.n[1], TRUE)
           [] h.h = "char" -> TString(h.n[1], FALSE)
           [] h.h = "date" -> U(Logical(TInt("32", TRUE), "build.recap.Date"), "day")
           [] h.h = "timestamp" -> HStamp(JStr("UTC"))
           [] h.h = "timestamp with local time zone" -> HStamp(JNull)
           [] h.h = "interval_year_month" -> HInterval("month")
           [] h.h = "interval_day_time" -> HInterval("second")
           [] h.h = "array" -> TList(in[1])
           [] h.h = "map" -> TMap(in[1], in[2])
           [] h.h = "struct" -> TStruct([i \in 1..Len(in) |-> Attr(in[i], "name", JStr(h.names[i]))]))

------------------------------------------------------------------------------
(* Statistics of a column: [kind, v], v a map from the metastore's names to  *)
(* values.  A value that the metastore does not have is absent or null.      *)
Renames(kind) ==
  CASE kind \in {"long", "double", "date", "decimal"} -> [lowValue |-> "low", highValue |-> "high", numDVs |-> "cardinality", numNulls |-> "null_count"]
    [] kind = "string" -> [avgColLen |-> "average_length", maxColLen |-> "max_length", numDVs |-> "cardinality", numNulls |-> "null_count"]
    [] kind = "binary" -> [avgColLen |-> "average_length", maxColLen |-> "max_length", numNulls |-> "null_count"]
    [] kind = "boolean" -> [numTrues |-> "true_count", numFalses |-> "false_count", numNulls |-> "null_count"]
\* A decimal is [scale, hex]: hex are the bytes of the unscaled value, big-endian, in two's complement
RECURSIVE TimesAdd(_, _, _)
TimesAdd(d, m, a) ==
  IF d = "" THEN (IF a = 0 THEN "" ELSE DecStr(a))
  ELSE LET n == DigitVal(Ch(d, Len(d))) * m + a IN TimesAdd(SubSeq(d, 1, Len(d) - 1), m, n \div 10) \o Ch(DigitStr, (n % 10) + 1)
HexVal(c) == FirstIndexOf("0123456789abcdef", c) - 1
RECURSIVE HexMag(_, _)
HexMag(h, neg) ==   \* of the bytes, or of their complement
  IF h = "" THEN ""
  ELSE LET v == HexVal(Ch(h, Len(h))) IN TimesAdd(HexMag(SubSeq(h, 1, Len(h) - 1), neg), 16, IF neg THEN 15 - v ELSE v)
RECURSIVE ZeroPad(_, _)
ZeroPad(d, n) == IF Len(d) >= n THEN d ELSE ZeroPad("0" \o d, n)
DecimalText(scale, h) ==
  LET neg == h # "" /\ HexVal(Ch(h, 1)) >= 8
      mag == LStrip(IF neg THEN TimesAdd(HexMag(h, TRUE), 1, 1) ELSE HexMag(h, FALSE), "0")
      d == ZeroPad(mag, scale + 1)
      whole == SubSeq(d, 1, Len(d) - scale)
  IN (IF neg THEN "-" ELSE "") \o whole \o (IF scale = 0 THEN "" ELSE "." \o SubSeq(d, Len(d) - scale + 1, Len(d)))
\* The decimals of statistics are text, which Recap's format can carry exactly
StatValue(x) == IF x.t = "obj" THEN JStr(DecimalText(DecVal(x.m["scale"].v), x.m["hex"].v)) ELSE x
StatsAttrs(s) ==
  IF s.kind = "none" THEN NoA
  ELSE LET r == Renames(s.kind) ks == {k \in DOMAIN r : Has(s.v, k) /\ s.v[k].t # "null"}
       IN [n \in {r[k] : k \in ks} |-> StatValue(s.v[CHOOSE k \in ks : r[k] = n])]
StatNames == {"low", "high", "cardinality", "null_count", "average_length", "max_length", "true_count", "false_count"}

\* a column is [name, comment, type, stats]
HiveField(c, want) ==
  LET t == Attr(HiveType(c.type), "name", JStr(c.name))
      d == IF c.comment # "" THEN Attr(t, "doc", JStr(c.comment)) ELSE t
  IN IF want THEN AttrS(d, StatsAttrs(c.stats)) ELSE d
=============================================================================
