-------------------------------- MODULE Avro --------------------------------
(* Avro schemas (JSON values) and the Recap types they denote, and the Avro  *)
(* schema that carries a Recap type.                                         *)
EXTENDS RecapTypes

AObj(x) == IF x.t = "str" THEN ObjOf([type |-> x])
           ELSE IF x.t = "arr" THEN ObjOf([type |-> x]) ELSE x

------------------------------------------------------------------------------
(* Reading.  d: the named types defined, in order; e: further names          *)
(* ("aliases") under which a type may be referenced.                         *)
R(t, d, e) == [ok |-> TRUE, t |-> t, d |-> d, e |-> e]
RNo == [ok |-> FALSE, t |-> TNull, d |-> <<>>, e |-> <<>>]

NamedKinds == {"record", "enum", "fixed"}
Ns(x, ns) ==
  LET own == IF OHas(x, "namespace") /\ IsStr(x.m["namespace"]) THEN x.m["namespace"].v ELSE ns
      i == IF OHas(x, "name") THEN LastIndexOf(x.m["name"].v, ".") ELSE 0
      n == IF i > 0 THEN SubSeq(x.m["name"].v, 1, i - 1) ELSE own
  IN IF OHas(x, "name") /\ n = "" THEN "_root" ELSE n
BareName(x) == LET v == x.m["name"].v IN Drop(v, LastIndexOf(v, "."))

LogicalType(l, x) ==
  CASE l = "decimal" ->
         IF OHas(x, "precision")
         THEN Acc(Logical(Attr(Attr(TBytes(IF OHas(x, "size") THEN x.m["size"].v ELSE MaxI64, x.m["type"] = JStr("fixed")),
                                    "precision", x.m["precision"]), "scale", OGet(x, "scale", JInt("0"))), "build.recap.Decimal"))
         ELSE Rej
    [] l = "uuid" -> Acc(Builtin["uuid"])
    [] l = "date" -> Acc(Builtin["date32"])
    [] l = "time-millis" -> Acc(U(Logical(TInt("32", TRUE), "build.recap.Time"), "millisecond"))
    [] l = "time-micros" -> Acc(U(Logical(TInt("64", TRUE), "build.recap.Time"), "microsecond"))
    [] l = "timestamp-millis" -> Acc(U(Logical(TInt("64", TRUE), "build.recap.Timestamp"), "millisecond"))
    [] l = "timestamp-micros" -> Acc(U(Logical(TInt("64", TRUE), "build.recap.Timestamp"), "microsecond"))
    [] l = "duration" -> Acc(U(Logical(TBytes("12", FALSE), "build.recap.Interval"), "millisecond"))
    [] OTHER -> Rej

Primitive(k) ==
  CASE k = "null" -> TNull [] k = "boolean" -> TBool
    [] k = "int" -> TInt("32", TRUE) [] k = "long" -> TInt("64", TRUE)
    [] k = "float" -> TFloat("32") [] k = "double" -> TFloat("64")
    [] k = "bytes" -> TBytes(MaxI64, TRUE) [] k = "string" -> TString(MaxI64, TRUE)
Primitives == {"null", "boolean", "int", "long", "float", "double", "bytes", "string"}

Ds(rs) == FlattenSeq2([i \in 1..Len(rs) |-> rs[i].d])
Es(rs) == FlattenSeq2([i \in 1..Len(rs) |-> rs[i].e])

\* field: x is a field of a record, so its name is not the name of a type
RECURSIVE ARead(_, _, _)
ARead(x0, ns0, field) ==
  LET x == AObj(x0)
      ns == Ns(x, ns0)
      ty == x.m["type"]
      k == IF ty.t = "str" THEN ty.v ELSE ""
      at == (IF OHas(x, "doc") THEN ("doc" :> x.m["doc"]) ELSE NoA)
            @@ (IF OHas(x, "name") THEN ("name" :> JStr(BareName(x))) ELSE NoA)
            @@ (IF OHas(x, "default") THEN ("default" :> x.m["default"]) ELSE NoA)
      others == IF OHas(x, "aliases")
                THEN SelectSeq([i \in 1..Len(x.m["aliases"].c) |-> x.m["aliases"].c[i].v], LAMBDA s : Contains(s, "."))
                ELSE <<>>
      own == IF OHas(x, "name") /\ ~field /\ k \in NamedKinds THEN <<ns \o "." \o BareName(x)>> ELSE <<>>
      fin(t, d, e) ==
        LET al == own \o others
            t2 == AttrS(t, at)
            t3 == IF al = <<>> THEN t2 ELSE Attr(t2, "alias", JStr(al[1]))
        IN R(t3, d \o [i \in 1..Len(own) |-> <<own[i], t3>>], e \o [i \in 1..Len(others) |-> <<others[i], t3>>])
  IN IF ~OHas(x, "type") THEN RNo
     ELSE IF OHas(x, "logicalType")
     THEN LET r == LogicalType(x.m["logicalType"].v, x) IN IF r.ok THEN fin(r.t, <<>>, <<>>) ELSE RNo
     ELSE CASE ty.t = "arr" \/ (k = "union" /\ OHas(x, "types")) ->
                 LET alts == IF ty.t = "arr" THEN ty.c ELSE x.m["types"].c
                     rs == [i \in 1..Len(alts) |-> ARead(alts[i], ns, FALSE)]
                 IN IF AllOk(rs) THEN fin(TUnion(Vals(rs)), Ds(rs), Es(rs)) ELSE RNo
            [] ty.t = "obj" ->
                 LET r == ARead(ty, ns, FALSE) IN IF r.ok THEN R(AttrS(r.t, at), r.d, r.e) ELSE RNo
            [] k \in Primitives -> fin(Primitive(k), <<>>, <<>>)
            [] k = "fixed" -> IF OHas(x, "size") /\ InRange(x.m["size"], "0", MaxI64)
                               THEN fin(TBytes(IF x.m["size"].v = "0" THEN "1" ELSE x.m["size"].v, TRUE), <<>>, <<>>) ELSE RNo
            [] k = "enum" -> IF OHas(x, "symbols") THEN fin(Ty("enum", [symbols |-> x.m["symbols"]], <<>>), <<>>, <<>>) ELSE RNo
            [] k = "array" -> IF ~OHas(x, "items") THEN RNo
                 ELSE LET r == ARead(x.m["items"], ns, FALSE) IN IF r.ok THEN fin(TList(r.t), r.d, r.e) ELSE RNo
            [] k = "map" -> IF ~OHas(x, "values") THEN RNo
                 ELSE LET r == ARead(x.m["values"], ns, FALSE)
                      IN IF r.ok THEN fin(TMap(TString(MaxI64, TRUE), r.t), r.d, r.e) ELSE RNo
            [] k = "record" -> IF ~OHas(x, "fields") THEN RNo
                 ELSE LET fs == x.m["fields"].c
                          rs == [i \in 1..Len(fs) |-> ARead(fs[i], ns, TRUE)]
                      IN IF AllOk(rs) THEN fin(TStruct(Vals(rs)), Ds(rs), Es(rs)) ELSE RNo
            [] ty.t = "str" -> \* a reference
                 R(AttrS(TProxy(IF Contains(k, ".") THEN k ELSE ns \o "." \o k), at), <<>>, <<>>)
            [] OTHER -> RNo

DNames(d) == [i \in 1..Len(d) |-> d[i][1]]
AvroRead(x) ==
  LET r == ARead(x, "", FALSE)
  IN IF ~(x.t = "obj") \/ ~r.ok \/ r.t.k # "struct" \/ ~AllDistinct(DNames(r.d)) THEN RNo ELSE r
\* name -> definition, for resolving the references of a schema
AvroReg(r) ==
  LET all == r.d \o r.e
      pick(n) == all[CHOOSE i \in 1..Len(all) : all[i][1] = n /\ \A j \in 1..(i-1) : all[j][1] # n][2]
  IN [n \in {all[i][1] : i \in 1..Len(all)} |-> Definition(pick(n))] @@ Builtin

RECURSIVE Proxies(_)
Proxies(t) == IF t.k = "proxy" THEN <<t>> ELSE FlattenSeq2([i \in 1..Len(t.c) |-> Proxies(t.c[i])])

------------------------------------------------------------------------------
(* Writing *)
\* decimal digits that a size in bits always has: floor(n * log10(2))
FullDigits(n) == DecStr((n * 30103) \div 100000)
JI(t, k) == IF Has(t.a, k) /\ IsInt(t.a[k]) THEN t.a[k].v ELSE ""
JS(t, k) == IF Has(t.a, k) /\ IsStr(t.a[k]) THEN t.a[k].v ELSE ""
WAcc(m) == [ok |-> TRUE, m |-> m]
WNo == [ok |-> FALSE, m |-> NoA]
TypeIs(s) == "type" :> JStr(s)
LogIs(s, l) == TypeIs(s) @@ ("logicalType" :> JStr(l))

WriteLogical(t) ==
  LET l == t.a["logical"].v u == JS(t, "unit")
      sint(n) == t.k = "int" /\ IsTrue(t.a["signed"]) /\ DecLeq(t.a["bits"].v, n)
  IN CASE l = "build.recap.Decimal" /\ t.k = "bytes" /\ Has(t.a, "bytes") /\ JI(t, "precision") # "" ->
            WAcc(LogIs("bytes", "decimal") @@ ("precision" :> t.a["precision"]) @@ ("scale" :> Get(t.a, "scale", JInt("0"))))
       [] l = "build.recap.Date" /\ sint("32") /\ (~Has(t.a, "unit") \/ u = "day") -> WAcc(LogIs("int", "date"))
       [] l = "build.recap.Time" /\ u = "millisecond" /\ sint("32") -> WAcc(LogIs("int", "time-millis"))
       [] l = "build.recap.Time" /\ u = "microsecond" /\ sint("64") -> WAcc(LogIs("long", "time-micros"))
       [] l = "build.recap.Timestamp" /\ u = "millisecond" /\ sint("64") -> WAcc(LogIs("long", "timestamp-millis"))
       [] l = "build.recap.Timestamp" /\ u = "microsecond" /\ sint("64") -> WAcc(LogIs("long", "timestamp-micros"))
       [] l = "build.recap.Interval" /\ u = "millisecond" /\ t.k = "bytes" /\ JI(t, "bytes") = "12" /\ ~IsTrue(t.a["variable"]) ->
            WAcc(LogIs("fixed", "duration") @@ ("size" :> JInt("12")))
       [] l = "build.recap.UUID" /\ t.k = "string" /\ Has(t.a, "bytes") -> WAcc(LogIs("string", "uuid"))
       [] OTHER -> WNo

\* a reference whose attributes change the type it refers to is written out
Changes(p, d) == (DOMAIN p.a \cap (OwnAttrs(d.k) \cup {"logical"})) # {}

KeyKind(k, reg) == IF k.k = "proxy" /\ Has(reg, AliasOf(k)) THEN Resolve1(k, reg).k ELSE k.k

\* names declared by the keys of maps: Avro has no schema for them, so nothing can refer to them
RECURSIVE KeyNames(_)
KeyNames(t) == (IF t.k = "map" /\ t.c[1].k # "proxy" /\ Has(t.c[1].a, "alias") THEN {AliasOf(t.c[1])} ELSE {})
               \cup UNION {KeyNames(t.c[i]) : i \in 1..Len(t.c)}

\* inline: names that are written out wherever they are referred to
RECURSIVE AWrite(_, _, _)
AWrite(t, reg, inline) ==
  LET at == (IF Has(t.a, "doc") THEN ("doc" :> t.a["doc"]) ELSE NoA)
            @@ (IF Has(t.a, "name") THEN ("name" :> t.a["name"]) ELSE NoA)
            @@ (IF Has(t.a, "default") THEN ("default" :> t.a["default"]) ELSE NoA)
            @@ (IF t.k # "proxy" /\ Has(t.a, "alias") THEN ("aliases" :> JArr(<<t.a["alias"]>>)) ELSE NoA)
      put(r) == IF r.ok THEN WAcc(at @@ r.m) ELSE WNo
      kids == [i \in 1..Len(t.c) |-> AWrite(t.c[i], reg, inline)]
      kidsOk == \A i \in 1..Len(kids) : kids[i].ok
      kidObj(i) == ObjOf(kids[i].m)
  IN IF t.k # "proxy" /\ Has(t.a, "logical") THEN put(WriteLogical(t))
     ELSE CASE t.k = "null" -> put(WAcc(TypeIs("null")))
            [] t.k = "bool" -> put(WAcc(TypeIs("boolean")))
            [] t.k = "int" ->
                 LET b == t.a["bits"].v s == IsTrue(t.a["signed"])
                 IN put(WAcc(IF s /\ DecLeq(b, "32") THEN TypeIs("int")
                             ELSE IF (s /\ DecLeq(b, "64")) \/ (~s /\ DecLeq(b, "32")) THEN TypeIs("long")
                             ELSE LogIs("bytes", "decimal")
                                  @@ ("precision" :> JInt(FullDigits(DecVal(b) - (IF s THEN 1 ELSE 0))))))
            [] t.k = "float" ->
                 IF DecLeq(t.a["bits"].v, "32") THEN put(WAcc(TypeIs("float")))
                 ELSE IF DecLeq(t.a["bits"].v, "64") THEN put(WAcc(TypeIs("double"))) ELSE WNo
            [] t.k = "string" -> put(WAcc(TypeIs("string")))
            [] t.k = "bytes" ->
                 put(WAcc(IF IsTrue(t.a["variable"]) THEN TypeIs("bytes") ELSE TypeIs("fixed") @@ ("size" :> t.a["bytes"])))
            [] t.k = "enum" -> put(WAcc(TypeIs("enum") @@ ("symbols" :> t.a["symbols"])))
            [] t.k = "struct" -> IF ~kidsOk THEN WNo
                 ELSE put(WAcc(TypeIs("record") @@ ("fields" :> JArr([i \in 1..Len(kids) |-> kidObj(i)]))))
            [] t.k = "list" -> IF ~kidsOk THEN WNo ELSE put(WAcc(TypeIs("array") @@ ("items" :> kidObj(1))))
            [] t.k = "map" -> IF ~kids[2].ok \/ KeyKind(t.c[1], reg) # "string" THEN WNo   \* Avro has string keys only
                 ELSE put(WAcc(TypeIs("map") @@ ("values" :> kidObj(2))))
            [] t.k = "union" -> IF ~kidsOk THEN WNo
                 ELSE put(WAcc("type" :> JArr([i \in 1..Len(kids) |-> kidObj(i)])))
            [] t.k = "proxy" ->
                 LET a == AliasOf(t) IN
                 IF a \in BuiltinNames \/ a \in inline \/ (Has(reg, a) /\ Changes(t, reg[a]))
                 THEN LET r == AWrite(Resolve1(t, reg), reg, inline) IN put(r)
                 ELSE IF Contains(a, ".") THEN put(WAcc(TypeIs(a))) ELSE WNo
AvroWrite(t) == AWrite(t, RegOf(t), KeyNames(t))

\* one form for schemas that differ only in shorthand
RECURSIVE ANorm(_)
ANorm(x0) ==
  LET x == AObj(x0)
      m == x.m
      s(key, v) == CASE key \in {"items", "values"} -> ANorm(v)
                     [] key = "fields" -> JArr([i \in 1..Len(v.c) |-> ANorm(v.c[i])])
                     [] key = "type" /\ v.t = "arr" -> JArr([i \in 1..Len(v.c) |-> ANorm(v.c[i])])
                     [] OTHER -> v
  IN IF x.t # "obj" THEN x ELSE ObjOf([key \in DOMAIN m |-> s(key, m[key])])

------------------------------------------------------------------------------
(* w can hold every value of t, and has its names, docs, defaults and order *)
Kept == {"name", "doc", "default"}
RECURSIVE Wide(_, _, _, _)
Wide(t0, rt, w0, rw) ==
  LET t == IF t0.k = "proxy" /\ (AliasOf(t0) \in BuiltinNames \/ (Has(rt, AliasOf(t0)) /\ w0.k # "proxy")) THEN Resolve1(t0, rt) ELSE t0
      w == w0
      n == Len(t.c)
      kidsWide == Len(w.c) = n /\ \A i \in 1..n : Wide(t.c[i], rt, w.c[i], rw)
      lt == JS(t, "logical") lw == JS(w, "logical")
  IN /\ AEq(Only(t0.a, Kept), Only(w.a, Kept)) \/ AEq(Only(t.a, Kept), Only(w.a, Kept))
     /\ CASE t.k = "proxy" -> w.k = "proxy" /\ AliasOf(w) = AliasOf(t) /\ Has(rw, AliasOf(w))
          [] t.k = "int" ->
               \/ w.k = "int" /\ IsTrue(w.a["signed"]) /\ lt = lw /\ (lt = "" \/ JS(t, "unit") \in {"", JS(w, "unit")})
                  /\ (IF IsTrue(t.a["signed"]) THEN DecLeq(t.a["bits"].v, w.a["bits"].v) ELSE DecLt(t.a["bits"].v, w.a["bits"].v))
               \/ w.k = "bytes" /\ lt = "" /\ lw = "build.recap.Decimal" /\ JI(w, "scale") = "0"
          [] t.k = "float" -> w.k = "float" /\ DecLeq(t.a["bits"].v, w.a["bits"].v)
          [] t.k \in {"string", "bytes"} ->
               /\ w.k = t.k /\ lt = lw
               /\ lt = "build.recap.UUID" \/ ~Has(w.a, "bytes") \/ w.a["bytes"].v = MaxI64
                  \/ (Has(t.a, "bytes") /\ DecLeq(t.a["bytes"].v, w.a["bytes"].v))
               /\ lt = "build.recap.Decimal" => (w.a["precision"] = t.a["precision"] /\ w.a["scale"] = Get(t.a, "scale", JInt("0")))
          [] t.k = "enum" -> w.k = "enum" /\ JEq(t.a["symbols"], w.a["symbols"])
          [] t.k = "map" -> w.k = "map" /\ Len(w.c) = 2 /\ w.c[1].k = "string" /\ Wide(t.c[2], rt, w.c[2], rw)
          [] OTHER -> w.k = t.k /\ kidsWide
=============================================================================
