------------------------------ MODULE Protobuf ------------------------------
(* Protobuf files (as syntax trees), the Recap types they denote, and the    *)
(* files that carry a Recap struct.                                          *)
(* Every element is [e, name, type, card, num, kt, vt, els]:                 *)
(*   e: message, enum, value, field, map, oneof;  card: "", optional,        *)
(*   required, repeated.  A file is [pkg, els].                              *)
EXTENDS RecapTypes

El(e, name, type, card, num, els) == [e |-> e, name |-> name, type |-> type, card |-> card, num |-> num, kt |-> "", vt |-> "", els |-> els]
MapEl(name, kt, vt, num) == [e |-> "map", name |-> name, type |-> "", card |-> "", num |-> num, kt |-> kt, vt |-> vt, els |-> <<>>]

------------------------------------------------------------------------------
(* Reading *)
Ns(f) == IF f.pkg = "" THEN "_root" ELSE f.pkg

\* the definitions of a file: <<full name, element>>
RECURSIVE Decls(_, _)
Decls(els, scope) ==
  FlattenSeq2([i \in 1..Len(els) |->
    IF els[i].e \in {"message", "enum"}
    THEN LET n == scope \o "." \o els[i].name
         IN <<<<n, els[i]>>>> \o (IF els[i].e = "message" THEN Decls(els[i].els, n) ELSE <<>>)
    ELSE <<>>])
NamesOf(ds) == [i \in 1..Len(ds) |-> ds[i][1]]

ProtoScalars == {"string", "bool", "bytes", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "float", "double",
                 "fixed32", "fixed64", "sfixed32", "sfixed64"}
Scalar(ty) ==
  CASE ty = "string" -> TString(Two31, TRUE) [] ty = "bytes" -> TBytes(Two31, TRUE) [] ty = "bool" -> TBool
    [] ty \in {"int32", "sint32", "sfixed32"} -> TInt("32", TRUE)
    [] ty \in {"int64", "sint64", "sfixed64"} -> TInt("64", TRUE)
    [] ty \in {"uint32", "fixed32"} -> TInt("32", FALSE)
    [] ty \in {"uint64", "fixed64"} -> TInt("64", FALSE)
    [] ty = "float" -> TFloat("32") [] ty = "double" -> TFloat("64")
WellKnown ==
     ("google.protobuf.Timestamp" :> Attr(U(Logical(TInt("64", TRUE), "build.recap.Timestamp"), "nanosecond"), "timezone", JStr("UTC")))
  @@ ("google.protobuf.Duration" :> U(Logical(TInt("64", TRUE), "build.recap.Duration"), "nanosecond"))
  @@ ("google.protobuf.NullValue" :> TNull)

\* the full name that a reference means: looked up from the innermost scope outwards
RECURSIVE Lookup(_, _, _)
Lookup(ty, scope, names) ==
  IF scope # "" /\ (scope \o "." \o ty) \in names THEN scope \o "." \o ty
  ELSE IF scope = "" THEN ty
  ELSE Lookup(ty, IF Contains(scope, ".") THEN SubSeq(scope, 1, LastIndexOf(scope, ".") - 1) ELSE "", names)
FullRef(ty, scope, names, ns) ==
  IF StartsWith(ty, ".")
  THEN LET n == Drop(ty, 1) IN IF n \in names THEN n ELSE ns \o "." \o n
  ELSE Lookup(ty, scope, names)

PType(ty, scope, names, ns) ==
  LET b == IF StartsWith(ty, ".") THEN Drop(ty, 1) ELSE ty
  IN IF b \in ProtoScalars THEN Scalar(b)
     ELSE IF Has(WellKnown, b) THEN WellKnown[b]
     ELSE TProxy(FullRef(ty, scope, names, ns))
NameT(t, n) == Attr(t, "name", JStr(n))
Nullable(t) == IF t.k = "null" THEN Attr(t, "default", JNull) ELSE Attr(TUnion(<<TNull, t>>), "default", JNull)

PField(el, scope, names, ns) ==
  CASE el.e = "field" ->
         LET t == PType(el.type, scope, names, ns)
             r == IF el.card = "repeated" THEN TList(t) ELSE t
         IN NameT(IF el.card = "required" THEN r ELSE Nullable(r), el.name)
    [] el.e = "map" -> NameT(Nullable(TMap(PType(el.kt, scope, names, ns), PType(el.vt, scope, names, ns))), el.name)
    [] el.e = "oneof" ->
         NameT(Attr(TUnion(<<TNull>> \o [i \in 1..Len(el.els) |-> NameT(PType(el.els[i].type, scope, names, ns), el.els[i].name)]),
                    "default", JNull), el.name)
FieldEls(el) == SelectSeq(el.els, LAMBDA x : x.e \in {"field", "map", "oneof"})
PDef(d, names, ns) ==
  Attr(IF d[2].e = "enum"
       THEN TEnum([i \in 1..Len(d[2].els) |-> d[2].els[i].name])
       ELSE LET fs == FieldEls(d[2]) IN TStruct([i \in 1..Len(fs) |-> PField(fs[i], d[1], names, ns)]),
       "alias", JStr(d[1]))
\* full name -> definition, with references by full name
PDefs(f) ==
  LET ds == Decls(f.els, Ns(f)) names == Range(NamesOf(ds))
  IN [n \in names |-> PDef(ds[CHOOSE i \in 1..Len(ds) : ds[i][1] = n], names, Ns(f))]

\* each definition is written out where it is first referenced, and referenced afterwards
RECURSIVE Expand(_, _, _), ExpandSeq(_, _, _)
ExpandSeq(ts, done, defs) ==
  IF ts = <<>> THEN [ts |-> <<>>, done |-> done]
  ELSE LET r == Expand(Head(ts), done, defs) s == ExpandSeq(Tail(ts), r.done, defs)
       IN [ts |-> <<r.t>> \o s.ts, done |-> s.done]
Expand(t0, done0, defs) ==
  LET here == t0.k = "proxy" /\ AliasOf(t0) \notin done0 /\ Has(defs, AliasOf(t0))
      t == IF here THEN AttrS(defs[AliasOf(t0)], t0.a) ELSE t0
      done == IF here THEN done0 \cup {AliasOf(t0)} ELSE done0
      r == ExpandSeq(t.c, done, defs)
  IN [t |-> [t EXCEPT !.c = r.ts], done |-> r.done]

Roots(f) == SelectSeq(f.els, LAMBDA x : x.e = "message")
ProtoRead(f) ==
  IF Roots(f) = <<>> THEN Rej
  ELSE LET n == Ns(f) \o "." \o Roots(f)[1].name defs == PDefs(f) IN Acc(Expand(defs[n], {n}, defs).t)

\* the same type, whatever the aliases are called
RECURSIVE NoAlias(_)
NoAlias(t) == [k |-> t.k, a |-> Without(t.a, {"alias"}), c |-> [i \in 1..Len(t.c) |-> NoAlias(t.c[i])]]
RECURSIVE AliasPairs(_, _)
AliasPairs(x, y) ==
  (IF Has(x.a, "alias") \/ Has(y.a, "alias") THEN {<<AliasOf(x), AliasOf(y)>>} ELSE {})
  \cup UNION {AliasPairs(x.c[i], y.c[i]) : i \in 1..Len(x.c)}
OneToOne(ps) == \A p, q \in ps : p[1] = q[1] <=> p[2] = q[2]
\* a definition, possibly with some of its references written out
RECURSIVE SameDef(_, _, _)
SameDef(act, exp, defs) ==
  IF exp.k = "proxy" /\ act.k # "proxy" /\ Has(defs, AliasOf(exp))
  THEN SameDef(act, AttrS(defs[AliasOf(exp)], exp.a), defs)
  ELSE /\ act.k = exp.k /\ AEq(Without(act.a, {"alias"}), Without(exp.a, {"alias"})) /\ Len(act.c) = Len(exp.c)
       /\ \A i \in 1..Len(act.c) : SameDef(act.c[i], exp.c[i], defs)

RECURSIVE Proxies(_)
Proxies(t) == IF t.k = "proxy" THEN <<t>> ELSE FlattenSeq2([i \in 1..Len(t.c) |-> Proxies(t.c[i])])

------------------------------------------------------------------------------
(* Writing *)
RECURSIVE DeclTypes(_)
\* the structs and enums in t
DeclTypes(t) == (IF t.k \in {"struct", "enum"} THEN <<t>> ELSE <<>>)
                \o FlattenSeq2([i \in 1..Len(t.c) |-> DeclTypes(t.c[i])])
TopDecls(t) == {AliasOf(x) : x \in Range(DeclTypes(t))}

FNo == [ok |-> FALSE, may |-> FALSE, e |-> "", type |-> "", card |-> "", kt |-> "", vt |-> "", els |-> <<>>]
FField(type) == [FNo EXCEPT !.ok = TRUE, !.e = "field", !.type = type]
KeyTypes == {"bool", "int32", "int64", "string", "uint32", "uint64"}
NonNull(t) == SelectSeq(t.c, LAMBDA x : x.k # "null")
TheName(t) == IF Has(t.a, "name") THEN t.a["name"].v ELSE ""

\* may: holds elements that can be null, which Protobuf lists and maps cannot say
RECURSIVE FieldOf(_, _, _, _)
FieldOf(t, declared, reg, fuel) ==
  LET sub(x) == FieldOf(x, declared, reg, fuel)
      single(f) == f.ok /\ f.e = "field" /\ f.card # "repeated"
      int(b, s) == IF DecLeq(b, "32") THEN FField(IF s THEN "int32" ELSE "uint32")
                   ELSE IF DecLeq(b, "64") THEN FField(IF s THEN "int64" ELSE "uint64") ELSE FNo
      sized(ty) == IF ~Has(t.a, "bytes") \/ DecLeq(t.a["bytes"].v, Two31) THEN FField(ty) ELSE FNo
  IN CASE t.k = "null" -> FField("google.protobuf.NullValue")
       [] t.k = "bool" -> FField("bool")
       [] t.k = "int" -> int(t.a["bits"].v, IsTrue(t.a["signed"]))
       [] t.k = "float" -> IF DecLeq(t.a["bits"].v, "32") THEN FField("float") ELSE IF DecLeq(t.a["bits"].v, "64") THEN FField("double") ELSE FNo
       [] t.k \in {"string", "bytes"} -> sized(t.k)
       [] t.k \in {"struct", "enum"} -> IF Has(t.a, "alias") THEN FField("." \o AliasOf(t)) ELSE FNo
       [] t.k = "list" ->
            LET f == sub(t.c[1]) IN IF single(f) THEN [f EXCEPT !.may = f.may \/ f.card # "", !.card = "repeated"] ELSE FNo
       [] t.k = "map" ->
            LET k == sub(t.c[1]) v == sub(t.c[2])
            IN IF single(k) /\ k.card = "" /\ k.type \in KeyTypes /\ single(v)
               THEN [FNo EXCEPT !.ok = TRUE, !.may = v.may \/ v.card # "", !.e = "map", !.kt = k.type, !.vt = v.type]
               ELSE FNo
       [] t.k = "union" ->
            LET nn == NonNull(t) fs == [i \in 1..Len(nn) |-> sub(nn[i])]
            IN IF Len(nn) = 0 THEN FNo
               ELSE IF Len(nn) = 1 THEN (IF fs[1].ok /\ fs[1].e = "field" /\ fs[1].card = "" THEN [fs[1] EXCEPT !.card = "optional"] ELSE fs[1])
               ELSE IF \A i \in 1..Len(fs) : single(fs[i])
               THEN [FNo EXCEPT !.ok = TRUE, !.may = \E i \in 1..Len(fs) : fs[i].may \/ fs[i].card # "", !.e = "oneof",
                                !.els = [i \in 1..Len(fs) |-> [type |-> fs[i].type, name |-> TheName(nn[i])]]]
               ELSE FNo
       [] t.k = "proxy" ->
            IF AliasOf(t) \in declared THEN FField("." \o AliasOf(t))
            ELSE IF fuel = 0 \/ ~Has(reg, AliasOf(t)) THEN FNo
            ELSE LET r == Resolve1(t, reg)
                 IN FieldOf(IF Has(t.a, "name") THEN r ELSE Unattr(r, {"name"}), declared, reg, fuel - 1)
       [] OTHER -> FNo

PkgOf(a) == SubSeq(a, 1, LastIndexOf(a, ".") - 1)
LastOf(a) == Drop(a, LastIndexOf(a, "."))
StructsOf(t) == {x \in Range(DeclTypes(t)) : x.k = "struct"}
OnePackage(t) ==
  LET pk == {PkgOf(a) : a \in TopDecls(t)} sn == {AliasOf(x) : x \in StructsOf(t)}
  IN \E p \in pk : \A q \in pk : q = p \/ q \in sn
ThePackage(t) ==
  LET pk == {PkgOf(a) : a \in TopDecls(t)} sn == {AliasOf(x) : x \in StructsOf(t)}
  IN CHOOSE p \in pk : p \notin sn
FieldsOf(t) == FlattenSeq2([i \in 1..Len(DeclTypes(t)) |-> IF DeclTypes(t)[i].k = "struct" THEN DeclTypes(t)[i].c ELSE <<>>])
Writable(t) ==
  LET fs == FieldsOf(t) d == TopDecls(t) reg == RegOf(t)
      r == [i \in 1..Len(fs) |-> FieldOf(fs[i], d, reg, 8)]
      aliased == t.k = "struct" /\ \A x \in Range(DeclTypes(t)) : Has(x.a, "alias")
  IN [ok |-> aliased /\ OnePackage(t) /\ \A i \in 1..Len(r) : r[i].ok, may |-> \E i \in 1..Len(r) : r[i].may]

\* the numbers of a message's fields, in order
Numbers(el) == FlattenSeq2([i \in 1..Len(FieldEls(el)) |->
                 IF FieldEls(el)[i].e = "oneof" THEN [j \in 1..Len(FieldEls(el)[i].els) |-> FieldEls(el)[i].els[j].num] ELSE <<FieldEls(el)[i].num>>])
FieldNames(el) == FlattenSeq2([i \in 1..Len(FieldEls(el)) |->
                 IF FieldEls(el)[i].e = "oneof" THEN <<FieldEls(el)[i].name>> \o [j \in 1..Len(FieldEls(el)[i].els) |-> FieldEls(el)[i].els[j].name]
                 ELSE <<FieldEls(el)[i].name>>])
RefTypes(el) == UNION {{FieldEls(el)[i].type, FieldEls(el)[i].vt} \cup {FieldEls(el)[i].els[j].type : j \in 1..Len(FieldEls(el)[i].els)} : i \in 1..Len(FieldEls(el))}

SameField(el, f, w) ==
  /\ el.name = TheName(f) /\ el.e = w.e
  /\ CASE w.e = "field" -> el.type = w.type /\ (el.card = w.card \/ (w.card = "optional" /\ f.k = "union" /\ Len(NonNull(f)) = Len(f.c)))
       [] w.e = "map" -> el.kt = w.kt /\ el.vt = w.vt
       [] w.e = "oneof" -> /\ Len(el.els) = Len(w.els)
                           /\ \A i \in 1..Len(w.els) : el.els[i].e = "field" /\ el.els[i].type = w.els[i].type /\ el.els[i].card = ""
                                                       /\ w.els[i].name \in {"", el.els[i].name}

\* what is wrong with the file f written for the struct t
FileDiff(t, f) ==
  LET ds == Decls(f.els, f.pkg) names == NamesOf(ds) declared == TopDecls(t) reg == RegOf(t)
      of(n) == ds[CHOOSE i \in 1..Len(ds) : ds[i][1] = n][2]
      bad(c, why) == IF c THEN {} ELSE {why}
      okNum(s) == s # "" /\ Ch(s, 1) \in Digits /\ s # "0"
  IN bad(f.pkg = ThePackage(t), "package")
     \cup bad(AllDistinct(names), "a name is declared twice")
     \cup bad(Range(names) = declared, "declarations differ from the structs and enums")
     \cup UNION {LET el == ds[i][2] IN
                 IF el.e # "message" THEN {}
                 ELSE bad(AllDistinct(Numbers(el)), "a field number is used twice in " \o ds[i][1])
                      \cup bad(\A k \in 1..Len(Numbers(el)) : okNum(Numbers(el)[k]), "a field number is not positive")
                      \cup bad(AllDistinct(FieldNames(el)), "a field name is used twice in " \o ds[i][1])
                      \cup bad(\A r \in RefTypes(el) : StartsWith(r, ".") => Drop(r, 1) \in Range(names), "a reference without declaration")
                 : i \in 1..Len(ds)}
     \cup (IF ~AllDistinct(names) THEN {} ELSE
           UNION {LET a == AliasOf(x) IN
                  IF a \notin Range(names) THEN {}
                  ELSE IF x.k = "enum"
                  THEN bad(of(a).e = "enum" /\ [i \in 1..Len(of(a).els) |-> of(a).els[i].name] = [i \in 1..Len(x.a["symbols"].c) |-> x.a["symbols"].c[i].v]
                           /\ AllDistinct([i \in 1..Len(of(a).els) |-> of(a).els[i].num]), "enum " \o a)
                  ELSE LET fs == FieldEls(of(a)) IN
                       IF of(a).e # "message" \/ Len(fs) # Len(x.c) THEN {"fields of " \o a}
                       ELSE {"field " \o a \o "." \o TheName(x.c[i]) : i \in {i \in 1..Len(fs) : ~SameField(fs[i], x.c[i], FieldOf(x.c[i], declared, reg, 8))}}
                  : x \in Range(DeclTypes(t))})
     \cup bad(PkgOf(AliasOf(t)) # f.pkg \/ (Roots(f) # <<>> /\ Roots(f)[1].name = LastOf(AliasOf(t))), "the root message is not the first message")

\* a file for t
RECURSIVE WriteFields(_, _, _, _)
WriteFields(fs, n, declared, reg) ==
  IF fs = <<>> THEN <<>>
  ELSE LET w == FieldOf(Head(fs), declared, reg, 8) nm == TheName(Head(fs))
           el == CASE w.e = "field" -> El("field", nm, w.type, w.card, DecStr(n), <<>>)
                   [] w.e = "map" -> MapEl(nm, w.kt, w.vt, DecStr(n))
                   [] OTHER -> El("oneof", nm, "", "", "", [i \in 1..Len(w.els) |->
                        El("field", IF w.els[i].name = "" THEN "field_" \o DecStr(n + i - 1) ELSE w.els[i].name, w.els[i].type, "", DecStr(n + i - 1), <<>>)])
       IN <<el>> \o WriteFields(Tail(fs), n + (IF w.e = "oneof" THEN Len(w.els) ELSE 1), declared, reg)
RECURSIVE WriteDecls(_, _, _)
WriteDecls(t, pkg, order) ==
  FlattenSeq2([i \in 1..Len(order) |->
    LET x == order[i] IN
    IF PkgOf(AliasOf(x)) # pkg THEN <<>>
    ELSE IF x.k = "enum" THEN <<El("enum", LastOf(AliasOf(x)), "", "", "",
           [j \in 1..Len(x.a["symbols"].c) |-> El("value", x.a["symbols"].c[j].v, "", "", DecStr(j - 1), <<>>)])>>
    ELSE <<El("message", LastOf(AliasOf(x)), "", "", "", WriteFields(x.c, 1, TopDecls(t), RegOf(t)) \o WriteDecls(t, AliasOf(x), order))>>])
ProtoWrite(t) == [pkg |-> ThePackage(t), els |-> WriteDecls(t, ThePackage(t), DeclTypes(t))]
=============================================================================
