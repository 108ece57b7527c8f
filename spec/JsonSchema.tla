----------------------------- MODULE JsonSchema -----------------------------
(* JSON schemas and the Recap types they denote, and the JSON schemas that   *)
(* carry a Recap type.  Objects keep the order of their keys (ks).           *)
EXTENDS RecapTypes

------------------------------------------------------------------------------
(* Reading.  kn: the $ids known so far; docs: URL -> schema that can be      *)
(* retrieved; d: the types defined so far, <<alias, type>>.                  *)
R(t, kn, d) == [ok |-> TRUE, t |-> t, kn |-> kn, d |-> d]
RNo == [ok |-> FALSE, t |-> TNull, kn |-> {}, d |-> <<>>]

\* alias of a schema's $id: reversed domain, then the path in lower case with
\* every other character than letters and digits turned into a dot; its parts
\* are identifiers, and there are at least two of them
RECURSIVE Words(_, _)
Words(s, cs) == IF s = "" THEN ""
                ELSE (IF Ch(s, 1) \in cs THEN Ch(s, 1) ELSE ".") \o Words(Drop(s, 1), cs)
RECURSIVE Dotted(_)
Dotted(s) == IF s = "" THEN ""
             ELSE (IF Ch(s, 1) \in AlphaNum THEN LowCh(Ch(s, 1)) ELSE ".") \o Dotted(Drop(s, 1))
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Rev(Tail(s)) \o <<Head(s)>>
\* position of the first of the characters cs in s, or one past its end
FirstOf(s, cs) == LET p == {FirstIndexOf(s, c) : c \in cs} \ {0} IN IF p = {} THEN Len(s) + 1 ELSE CHOOSE i \in p : \A j \in p : i <= j
UpTo(s, cs) == SubSeq(s, 1, FirstOf(s, cs) - 1)
From(s, cs) == Drop(s, FirstOf(s, cs) - 1)
\* scheme, host, path, query and fragment of a URL: query and scheme don't count
UrnAlias(u) ==
  LET rest == Drop(u, FirstIndexOf(u, ":"))
      auth == Len(rest) >= 2 /\ SubSeq(rest, 1, 2) = "//"
      after == Drop(rest, 2)
      host == IF auth THEN UpTo(after, {"/", "?", "#"}) ELSE ""
      tail == IF auth THEN From(after, {"/", "?", "#"}) ELSE rest
      path == UpTo(tail, {"?", "#"}) \o Drop(From(tail, {"#"}), 1)
      hp == Split(Words(JoinStr(Rev(Split(host, ".")), "."), AlphaNum \cup {"_"}), ".")
      ps == SelectSeq(hp \o Split(Dotted(path), "."), LAMBDA w : w # "")
      qs == [i \in 1..Len(ps) |-> IF Ch(ps[i], 1) \in Digits THEN "_" \o ps[i] ELSE ps[i]]
  IN JoinStr(IF Len(qs) < 2 THEN <<"_root">> \o qs ELSE qs, ".")
\* an empty fragment is no fragment
NoHash(u) == RStrip(u, "#")

JsonFormats == ("date" :> "org.iso.8601.Date") @@ ("date-time" :> "org.iso.8601.DateTime") @@ ("time" :> "org.iso.8601.Time")

\* a property that may be absent is nullable and has a default
Opt(t) == LET u == IF IsNullable(t) THEN t ELSE MakeNullable(t)
          IN IF Has(u.a, "default") THEN u ELSE Attr(u, "default", JNull)
Strs(j) == IF j.t = "arr" THEN {j.c[i].v : i \in {i \in 1..Len(j.c) : j.c[i].t = "str"}} ELSE {}

RECURSIVE JRead(_, _, _), JReadType(_, _, _), JReadSeq(_, _, _)
JReadSeq(xs, kn, docs) ==
  IF xs = <<>> THEN [ok |-> TRUE, ts |-> <<>>, kn |-> kn, d |-> <<>>]
  ELSE LET r == JRead(Head(xs), kn, docs)
       IN IF ~r.ok THEN [ok |-> FALSE, ts |-> <<>>, kn |-> {}, d |-> <<>>]
          ELSE LET s == JReadSeq(Tail(xs), r.kn, docs)
               IN [s EXCEPT !.ts = <<r.t>> \o s.ts, !.d = r.d \o s.d]
JRead(x, kn, docs) ==
  LET r == JReadType(x, kn, docs)
  IN IF r.ok /\ r.t.k # "proxy" /\ Has(r.t.a, "alias") THEN [r EXCEPT !.d = r.d \o <<<<AliasOf(r.t), r.t>>>>] ELSE r
JReadType(x0, kn0, docs) ==
  LET x == IF x0.t = "str" THEN ObjOf([type |-> x0]) ELSE x0
      id == IF OHas(x, "$id") THEN NoHash(x.m["$id"].v) ELSE ""
      kn == IF id = "" THEN kn0 ELSE kn0 \cup {id}
      at == (IF OHas(x, "description") THEN ("doc" :> x.m["description"]) ELSE NoA)
            @@ (IF OHas(x, "default") THEN ("default" :> x.m["default"]) ELSE NoA)
            @@ (IF id = "" THEN NoA ELSE ("alias" :> JStr(UrnAlias(id))))
      ty == OGet(x, "type", JNull)
      k == IF ty.t = "str" THEN ty.v ELSE ""
      plain(t) == R(AttrS(t, at), kn, <<>>)
      fmt == IF OHas(x, "format") /\ x.m["format"].t = "str" THEN x.m["format"].v ELSE ""
  IN IF x.t # "obj" THEN RNo
     ELSE CASE ty.t = "arr" ->
            LET s == JReadSeq(ty.c, kn, docs) IN IF s.ok THEN R(AttrS(TUnion(s.ts), at), s.kn, s.d) ELSE RNo
       [] k = "object" /\ OHas(x, "properties") ->
            LET ps == x.m["properties"]
                s == JReadSeq([i \in 1..Len(ps.ks) |-> ps.m[ps.ks[i]]], kn, docs)
                req == Strs(OGet(x, "required", JArr(<<>>)))
                field(i) == Attr(IF ps.ks[i] \in req THEN s.ts[i] ELSE Opt(s.ts[i]), "name", JStr(ps.ks[i]))
            IN IF s.ok THEN R(AttrS(TStruct([i \in 1..Len(s.ts) |-> field(i)]), at), s.kn, s.d) ELSE RNo
       [] k = "array" /\ OHas(x, "items") ->
            LET r == JRead(x.m["items"], kn, docs) IN IF r.ok THEN R(AttrS(TList(r.t), at), r.kn, r.d) ELSE RNo
       [] k = "string" ->
            plain(IF fmt = "bytes" THEN TBytes("", TRUE)
                  ELSE IF Has(JsonFormats, fmt) THEN Logical(TString("", TRUE), JsonFormats[fmt]) ELSE TString("", TRUE))
       [] k = "number" -> plain(TFloat("64"))
       [] k = "integer" -> plain(TInt("32", TRUE))
       [] k = "boolean" -> plain(TBool)
       [] k = "null" -> plain(TNull)
       [] (ty.t = "null") /\ (OHas(x, "$ref") \/ OHas(x, "$dynamicRef")) ->
            LET u == NoHash((IF OHas(x, "$ref") THEN x.m["$ref"] ELSE x.m["$dynamicRef"]).v)
            IN IF u \in kn THEN R(AttrS(TProxy(UrnAlias(u)), Without(at, {"alias"})), kn, <<>>)
               ELSE IF ~Has(docs, u) THEN RNo
               ELSE LET r == JRead(docs[u], kn \cup {u}, docs)
                    IN IF r.ok THEN R(AttrS(r.t, Without(at, {"alias"})), r.kn, r.d) ELSE RNo
       [] OTHER -> RNo
JsonRead(x, docs) == LET r == JRead(x, {}, docs) IN IF r.ok /\ r.t.k = "struct" THEN r ELSE RNo
JsonReg(r) ==
  [n \in {r.d[i][1] : i \in 1..Len(r.d)} |->
     Definition(r.d[CHOOSE i \in 1..Len(r.d) : r.d[i][1] = n /\ \A j \in 1..(i-1) : r.d[j][1] # n][2])] @@ Builtin

------------------------------------------------------------------------------
(* Writing: how a Recap type appears in a JSON schema.  defs: alias -> schema *)
Changes(p, d) == (DOMAIN p.a \cap (OwnAttrs(d.k) \cup {"logical"})) # {}
RefTo(a) == JStr("#/$defs/" \o a)

JsonKind(t) ==
  CASE t.k = "null" -> ("type" :> JStr("null"))
    [] t.k = "bool" -> ("type" :> JStr("boolean"))
    [] t.k = "int" -> ("type" :> JStr("integer"))
    [] t.k = "float" -> ("type" :> JStr("number"))
    [] t.k = "string" -> ("type" :> JStr("string"))
    [] t.k = "bytes" -> ("type" :> JStr("string")) @@ ("format" :> JStr("byte"))
    [] t.k = "enum" -> ("type" :> JStr("string")) @@ ("enum" :> t.a["symbols"])
    [] t.k = "list" -> ("type" :> JStr("array"))
    [] t.k \in {"map", "struct"} -> ("type" :> JStr("object"))
    [] OTHER -> NoA
Texts(a) == (IF Has(a, "default") THEN ("default" :> a["default"]) ELSE NoA)
            @@ (IF Has(a, "doc") THEN ("description" :> a["doc"]) ELSE NoA)
TheOther(t) == t.c[CHOOSE i \in 1..Len(t.c) : ~IsPlainNull(t.c[i])]
FieldName(f) == IF Has(f.a, "name") /\ IsStr(f.a["name"]) THEN f.a["name"].v ELSE ""

\* the canonical schema of t
RECURSIVE JWrite(_, _, _)
JWrite(t, reg, declare) ==
  LET obj(m) == JObj(<<>>, m)
      sub(i) == JWrite(t.c[i], reg, FALSE)
      named == [i \in 1..Len(t.c) |-> FieldName(t.c[i])]
      req == SelectSeq([i \in 1..Len(t.c) |-> IF IsOptional(t.c[i]) THEN "" ELSE named[i]], LAMBDA s : s # "")
  IN CASE t.k = "proxy" /\ (AliasOf(t) \in BuiltinNames \/ Changes(t, reg[AliasOf(t)])) -> JWrite(Resolve1(t, reg), reg, FALSE)
       [] t.k = "proxy" -> obj(Texts(t.a) @@ ("$ref" :> RefTo(AliasOf(t))))
       [] t.k # "proxy" /\ Has(t.a, "alias") /\ ~declare -> obj("$ref" :> RefTo(AliasOf(t)))
       [] IsOptional(t) -> LET o == JWrite(TheOther(t), reg, FALSE) IN JObj(o.ks, Texts(t.a) @@ o.m)
       [] t.k = "union" -> obj(Texts(t.a) @@ ("oneOf" :> JArr([i \in 1..Len(t.c) |-> sub(i)])))
       [] t.k = "list" -> obj(Texts(t.a) @@ JsonKind(t) @@ ("items" :> sub(1)))
       [] t.k = "map" -> obj(Texts(t.a) @@ JsonKind(t) @@ ("additionalProperties" :> sub(2)))
       [] t.k = "struct" ->
            obj(Texts(t.a) @@ JsonKind(t)
                @@ ("properties" :> JObj(named, [n \in Range(named) |-> sub(CHOOSE i \in 1..Len(named) : named[i] = n)]))
                @@ (IF req = <<>> THEN NoA ELSE ("required" :> JArr([i \in 1..Len(req) |-> JStr(req[i])]))))
       [] OTHER -> obj(Texts(t.a) @@ JsonKind(t))
JsonWrite(t) ==
  LET reg == RegOf(t) ds == Declared(t) r == JWrite(t, reg, FALSE)
      defs == [n \in Range(DeclNames(t)) |-> JWrite(ds[CHOOSE i \in 1..Len(ds) : ds[i][1] = n][2], reg, TRUE)]
  IN IF ds = <<>> THEN r ELSE JObj(<<>>, ("$defs" :> JObj(<<>>, defs)) @@ r.m)

Defs(s) == IF s.t = "obj" /\ OHas(s, "$defs") /\ s.m["$defs"].t = "obj" THEN s.m["$defs"].m ELSE NoA
\* a schema with its references followed; what stands beside a reference wins
RECURSIVE Follow(_, _, _)
Follow(s, defs, fuel) ==
  IF s.t # "obj" THEN ("type" :> JStr("?not a schema"))
  ELSE IF ~OHas(s, "$ref") THEN s.m
  ELSE IF fuel = 0 \/ ~(\E n \in DOMAIN defs : RefTo(n) = s.m["$ref"]) THEN ("type" :> JStr("?undefined reference"))
  ELSE Without(s.m, {"$ref"}) @@ Follow(defs[CHOOSE n \in DOMAIN defs : RefTo(n) = s.m["$ref"]], defs, fuel - 1)
\* following references from s passes through r
RECURSIVE Passes(_, _, _, _)
Passes(s, r, defs, fuel) ==
  /\ s.t = "obj" /\ OHas(s, "$ref")
  /\ \/ s.m["$ref"] = r
     \/ /\ fuel > 0 /\ \E n \in DOMAIN defs : RefTo(n) = s.m["$ref"]
        /\ Passes(defs[CHOOSE n \in DOMAIN defs : RefTo(n) = s.m["$ref"]], r, defs, fuel - 1)
Eff(s, defs) == Without(Follow(s, defs, Cardinality(DOMAIN defs) + 1), {"$defs"})

\* where the schema s fails to say what t is; over: doc and default of an enclosing optional type
RECURSIVE Diff(_, _, _, _, _, _)
Diff(t, s, over, defs, reg, at) ==
  LET texts == over @@ Only(t.a, {"doc", "default"})
      a == AliasOf(t)
      m == Eff(s, defs)
      is(keys) == DOMAIN m \ {"default", "description"} = keys
      bad(c, why) == IF c THEN {} ELSE {at \o ": " \o why}
      wrongTexts == bad(AEq(Only(m, {"default", "description"}), Texts(texts)), "description or default")
      kindOk(more) == \A k \in DOMAIN JsonKind(t) : Has(m, k) /\ JEq(m[k], JsonKind(t)[k])
      shape(more) == bad(is(DOMAIN JsonKind(t) \cup more) /\ kindOk(more), "should be " \o t.k)
  IN CASE t.k = "proxy" /\ ~Has(reg, a) -> {}
       [] t.k = "proxy" /\ (a \in BuiltinNames \/ Changes(t, reg[a])) -> Diff(Resolve1(t, reg), s, over, defs, reg, at)
       [] t.k = "proxy" ->
            IF s.t = "obj" /\ OHas(s, "$ref")
            THEN bad(Passes(s, RefTo(a), defs, Cardinality(DOMAIN defs) + 1), "refers to something else than " \o a)
                 \cup bad(\A k \in DOMAIN Texts(texts) : Has(m, k) /\ JEq(m[k], Texts(texts)[k]), "description or default of a reference")
            ELSE Diff(Resolve1(t, reg), s, over, defs, reg, at)
       [] IsOptional(t) -> Diff(TheOther(t), s, texts, defs, reg, at)
       [] t.k = "union" ->
            wrongTexts
            \cup (IF is({"oneOf"}) /\ m["oneOf"].t = "arr" /\ Len(m["oneOf"].c) = Len(t.c)
                  THEN UNION {Diff(t.c[i], m["oneOf"].c[i], NoA, defs, reg, at \o "|" \o DecStr(i)) : i \in 1..Len(t.c)}
                  ELSE {at \o ": should have one alternative per type"})
       [] t.k = "list" ->
            wrongTexts \cup shape({"items"})
            \cup (IF Has(m, "items") THEN Diff(t.c[1], m["items"], NoA, defs, reg, at \o "[]") ELSE {})
       [] t.k = "map" ->
            wrongTexts \cup shape({"additionalProperties"})
            \cup (IF Has(m, "additionalProperties") THEN Diff(t.c[2], m["additionalProperties"], NoA, defs, reg, at \o "{}") ELSE {})
       [] t.k = "struct" ->
            LET names == [i \in 1..Len(t.c) |-> FieldName(t.c[i])]
                ps == Get(m, "properties", JNull)
                \* a reference with a default to a nullable type may be listed or not
                unclear == {names[i] : i \in {i \in 1..Len(t.c) : t.c[i].k = "proxy" /\ Has(t.c[i].a, "default")}}
                req == {names[i] : i \in {i \in 1..Len(t.c) : ~IsOptional(t.c[i])}}
            IN wrongTexts
               \cup (IF Has(m, "required") THEN shape({"properties", "required"}) ELSE shape({"properties"}))
               \cup bad(Strs(Get(m, "required", JArr(<<>>))) \ unclear = req \ unclear, "required")
               \cup (IF ps.t = "obj" /\ ps.ks = names
                     THEN UNION {Diff(t.c[i], ps.m[names[i]], NoA, defs, reg, at \o "." \o names[i]) : i \in 1..Len(t.c)}
                     ELSE {at \o ": properties are not the fields"})
       [] OTHER -> wrongTexts \cup shape({})

RECURSIVE RefsIn(_)
RefsIn(s) ==
  CASE s.t = "obj" -> (IF OHas(s, "$ref") THEN {s.m["$ref"]} ELSE {})
                      \cup UNION {RefsIn(s.m[k]) : k \in (DOMAIN s.m \cap {"items", "additionalProperties"})}
                      \cup UNION {UNION {RefsIn(s.m[k].m[n]) : n \in DOMAIN s.m[k].m} : k \in (DOMAIN s.m \cap {"properties", "$defs"})}
                      \cup (IF OHas(s, "oneOf") THEN UNION {RefsIn(s.m["oneOf"].c[i]) : i \in 1..Len(s.m["oneOf"].c)} ELSE {})
    [] OTHER -> {}
Undefined(s) == {r \in RefsIn(s) : ~\E n \in DOMAIN Defs(s) : RefTo(n) = r}

\* the definitions themselves, apart from doc and default
DefsDiff(t, s) ==
  LET reg == RegOf(t) defs == Defs(s) IN
  UNION {LET m == Follow(defs[n], defs, Cardinality(DOMAIN defs) + 1)
         IN Diff(reg[n], JObj(<<>>, Without(m, {"default", "description"})), NoA, defs, reg, n)
         : n \in {n \in DOMAIN defs : Has(reg, n) /\ reg[n].k # "union"}}

\* fields that a written schema has to name
RECURSIVE Nameless(_)
Nameless(t) ==
  \/ t.k = "struct" /\ \E i \in 1..Len(t.c) : FieldName(t.c[i]) = ""
  \/ \E i \in (IF t.k = "map" THEN {2} ELSE 1..Len(t.c)) : Nameless(t.c[i])
=============================================================================
