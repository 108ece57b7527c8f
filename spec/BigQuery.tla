------------------------------ MODULE BigQuery ------------------------------
(* BigQuery table schemas and the Recap types of their fields.               *)
(* A field is [name, type, mode, desc, def, maxlen, prec, scale, fields];    *)
(* name, type and mode are strings, fields a sequence of fields, the others  *)
(* tagged JSON values (null when absent).                                    *)
EXTENDS RecapTypes

BqDec(x) == IF x.t = "int" THEN x.v ELSE ""
BqDecimal(bytes, f, p) ==
  Attr(Attr(Logical(TBytes(bytes, FALSE), "build.recap.Decimal"), "precision", JInt(IF BqDec(f.prec) = "" THEN p ELSE BqDec(f.prec))),
       "scale", JInt(IF BqDec(f.scale) = "" THEN "0" ELSE BqDec(f.scale)))

RECURSIVE BqStruct(_), BqType(_), BqField(_)
BqType(f) ==
  CASE f.type \in {"STRING", "JSON"} -> Acc(TString(BqDec(f.maxlen), TRUE))
    [] f.type = "BYTES" -> Acc(TBytes(BqDec(f.maxlen), TRUE))
    [] f.type \in {"INT64", "INTEGER", "INT", "SMALLINT", "TINYINT", "BYTEINT"} -> Acc(TInt("64", TRUE))
    [] f.type \in {"FLOAT", "FLOAT64"} -> Acc(TFloat("64"))
    [] f.type \in {"BOOLEAN", "BOOL"} -> Acc(TBool)
    [] f.type \in {"TIMESTAMP", "DATETIME"} -> Acc(U(Logical(TInt("64", TRUE), "build.recap.Timestamp"), "microsecond"))
    [] f.type = "TIME" -> Acc(U(Logical(TInt("32", TRUE), "build.recap.Time"), "microsecond"))
    [] f.type = "DATE" -> Acc(U(Logical(TInt("32", TRUE), "build.recap.Date"), "day"))
    [] f.type \in {"NUMERIC", "DECIMAL"} -> Acc(BqDecimal("16", f, "38"))
    [] f.type \in {"BIGNUMERIC", "BIGDECIMAL"} -> Acc(BqDecimal("32", f, "76"))
    [] f.type \in {"RECORD", "STRUCT"} -> BqStruct(f.fields)
    [] OTHER -> Rej
BqField(f) ==
  LET r == BqType(f)
      t == CASE f.mode = "REPEATED" -> TList(r.t) [] f.mode = "NULLABLE" -> MakeNullable(r.t) [] OTHER -> r.t
      text(x) == x.t = "str" /\ x.v # ""
      d == IF text(f.desc) THEN Attr(t, "doc", f.desc) ELSE t
      e == IF text(f.def) THEN Attr(d, "default", f.def) ELSE d
  IN IF r.ok THEN Acc(Attr(e, "name", JStr(f.name))) ELSE Rej
BqStruct(fs) ==
  LET r == [i \in 1..Len(fs) |-> BqField(fs[i])]
  IN IF AllOk(r) THEN Acc(TStruct(Vals(r))) ELSE Rej
=============================================================================
