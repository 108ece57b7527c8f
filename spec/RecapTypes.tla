----------------------------- MODULE RecapTypes -----------------------------
(* Recap descriptions (JSON) and the types they denote.                      *)
EXTENDS TypeValues

------------------------------------------------------------------------------
(* Equivalence across two descriptions: references to user aliases are       *)
(* followed when the other side is not a reference to the same alias.        *)
Canon(t) ==
  \* one level of normal form; children are canonicalised by EquivR
  IF t.k = "proxy" /\ AliasOf(t) \in BuiltinNames
  THEN AttrS(Builtin[AliasOf(t)], Without(t.a, {"alias"}))
  ELSE LET n == IndexOf(t.c, IsPlainNull)
       IN IF t.k = "union" /\ n # 0 /\ Has(t.a, "default")
          THEN LET rest == SubSeq(t.c, 1, n - 1) \o SubSeq(t.c, n + 1, Len(t.c))
               IN IF Len(rest) = 1 /\ rest[1].k # "union" /\ ~Has(t.a, "doc") /\ Has(rest[1].a, "doc")
                  \* the doc of the sole alternative is the optional type's doc
                  THEN [t EXCEPT !.c = <<TNull, Unattr(rest[1], {"doc"})>>,
                                 !.a = With(t.a, "doc", rest[1].a["doc"])]
                  ELSE [t EXCEPT !.c = <<TNull>> \o rest]
          ELSE t

RECURSIVE EquivR(_, _, _, _)
EquivR(x0, rx, y0, ry) ==
  LET x1 == Canon(x0) y1 == Canon(y0)
      user(t) == t.k = "proxy"
      x == IF user(x1) /\ ~user(y1) /\ Has(rx, AliasOf(x1)) THEN Canon(Resolve1(x1, rx)) ELSE x1
      y == IF user(y1) /\ ~user(x1) /\ Has(ry, AliasOf(y1)) THEN Canon(Resolve1(y1, ry)) ELSE y1
  IN /\ x.k = y.k
     /\ AEq(x.a, y.a)
     /\ Len(x.c) = Len(y.c)
     /\ \A i \in 1..Len(x.c) : EquivR(x.c[i], rx, y.c[i], ry)

EquivT(x, y) == EquivR(x, RegOf(x), y, RegOf(y))

------------------------------------------------------------------------------
(* Reading a description *)
Rej == [ok |-> FALSE, t |-> TNull]
Acc(t) == [ok |-> TRUE, t |-> t]
Reserved == {"type", "optional"}

\* attributes as the type carries them: null logical/doc/alias/lengths are absent
CleanAttrs(k, m) ==
  LET nullable == {"logical", "doc", "alias"}
                  \cup (IF k \in {"string", "bytes"} THEN {"bytes"} ELSE {})
                  \cup (IF k = "list" THEN {"length"} ELSE {})
  IN Without(m, {x \in DOMAIN m : x \in nullable /\ m[x].t = "null"})

Defaults(k) ==
  CASE k = "int" -> [signed |-> JTrue]
    [] k \in {"string", "bytes", "list"} -> [variable |-> JTrue]
    [] OTHER -> NoA

AllOk(rs) == \A i \in 1..Len(rs) : rs[i].ok
Vals(rs) == [i \in 1..Len(rs) |-> rs[i].t]
IsTrueJ(x) == x.t = "bool" /\ x.v = "true"

RECURSIVE Parse(_), ParseObj(_), ParseNamed(_)
Parse(x) ==
  CASE x.t = "str" -> ParseObj([type |-> x])
    [] x.t = "arr" -> ParseObj(("type" :> JStr("union")) @@ ("types" :> x))
    [] x.t = "obj" -> IF Has(x.m, "type") /\ x.m["type"].t # "null" THEN ParseObj(x.m) ELSE Rej
    [] OTHER -> Rej

ParseObj(m0) ==
  LET opt == Has(m0, "optional") /\ IsTrueJ(m0["optional"])
      m1 == Without(m0, {"optional"})
      lifted == Without(m1, {"name", "default"})
      isU == m1["type"] = JStr("union")
      base == IF isU
              THEN IF Has(lifted, "types") /\ lifted["types"].t = "arr"
                   THEN IF \E i \in 1..Len(lifted["types"].c) : lifted["types"].c[i] = JStr("null")
                        THEN lifted
                        ELSE With(lifted, "types", JArr(<<JStr("null")>> \o lifted["types"].c))
                   ELSE lifted
              ELSE ("type" :> JStr("union"))
                   @@ ("types" :> JArr(<<JStr("null"), ObjOf(lifted)>>))
      up == ("default" :> Get(m1, "default", JNull))
            @@ (IF Has(m1, "name") /\ m1["name"].t # "null" THEN ("name" :> m1["name"]) ELSE NoA)
  IN IF opt
     THEN IF isU /\ ~Has(lifted, "types") THEN Rej ELSE ParseNamed(up @@ base)
     ELSE ParseNamed(m1)

ParseNamed(m) ==
  LET ty == m["type"]
      k == IF ty.t = "arr" THEN "union" ELSE ty.v
      rest == Without(m, {"type"})
      mk(kk, drop, kids) ==
        LET t == Ty(kk, CleanAttrs(kk, Without(rest, drop)) @@ Defaults(kk), kids)
        IN IF SizeOk(t) THEN Acc(t) ELSE Rej
      seqOf(key) == [i \in 1..Len(rest[key].c) |-> Parse(rest[key].c[i])]
  IN CASE ty.t = "arr" ->
            LET rs == [i \in 1..Len(ty.c) |-> Parse(ty.c[i])]
            IN IF AllOk(rs) THEN mk("union", {}, Vals(rs)) ELSE Rej
       [] ty.t # "str" -> Rej
       [] k \in {"null", "bool"} -> mk(k, {}, <<>>)
       [] k \in {"int", "float"} -> IF Has(rest, "bits") THEN mk(k, {}, <<>>) ELSE Rej
       [] k \in {"string", "bytes"} -> mk(k, {}, <<>>)
       [] k = "enum" -> IF Has(rest, "symbols") THEN mk(k, {}, <<>>) ELSE Rej
       [] k = "list" ->
            IF Has(rest, "values")
            THEN LET v == Parse(rest["values"]) IN IF v.ok THEN mk(k, {"values"}, <<v.t>>) ELSE Rej
            ELSE Rej
       [] k = "map" ->
            IF Has(rest, "keys") /\ Has(rest, "values")
            THEN LET a == Parse(rest["keys"]) b == Parse(rest["values"])
                 IN IF a.ok /\ b.ok THEN mk(k, {"keys", "values"}, <<a.t, b.t>>) ELSE Rej
            ELSE Rej
       [] k = "struct" ->
            IF Has(rest, "fields")
            THEN IF rest["fields"].t = "arr"
                 THEN LET rs == seqOf("fields") IN IF AllOk(rs) THEN mk(k, {"fields"}, Vals(rs)) ELSE Rej
                 ELSE Rej
            ELSE mk(k, {}, <<>>)
       [] k = "union" ->
            IF Has(rest, "types") /\ rest["types"].t = "arr"
            THEN LET rs == seqOf("types") IN IF AllOk(rs) THEN mk(k, {"types"}, Vals(rs)) ELSE Rej
            ELSE Rej
       [] OTHER -> \* a reference
            IF Has(rest, "alias") THEN Rej
            ELSE Acc(Ty("proxy", ("alias" :> JStr(k)) @@ CleanAttrs("proxy", rest), <<>>))

\* the denotation of a whole description
FromDict(x) == LET r == Parse(x) IN IF r.ok /\ AliasesOk(r.t) THEN r ELSE Rej

------------------------------------------------------------------------------
(* Writing a description: the long form, and the compact form with its       *)
(* shorthands.  The code may compact differently; these are the design whose *)
(* losslessness TLC checks, and the inputs fed to the code's reader.         *)
RECURSIVE LongDict(_)
LongDict(t) ==
  LET kids == [i \in 1..Len(t.c) |-> LongDict(t.c[i])]
      sub == CASE t.k = "list" -> ("values" :> kids[1])
               [] t.k = "map" -> ("keys" :> kids[1]) @@ ("values" :> kids[2])
               [] t.k = "struct" -> ("fields" :> JArr(kids))
               [] t.k = "union" -> ("types" :> JArr(kids))
               [] OTHER -> NoA
  IN IF t.k = "proxy"
     THEN ObjOf(("type" :> JStr(AliasOf(t))) @@ Without(t.a, {"alias"}))
     ELSE ObjOf(("type" :> JStr(t.k)) @@ sub @@ t.a)

\* attributes with their default value are left out
Slim(k, a) == Without(a, {x \in DOMAIN a : Has(Defaults(k), x) /\ a[x] = Defaults(k)[x]})

ShortObj(m) ==
  IF DOMAIN m = {"type"} /\ m["type"].t = "str" THEN m["type"]
  ELSE IF DOMAIN m = {"type", "types"} /\ m["type"] = JStr("union") THEN m["types"]
  ELSE ObjOf(m)

\* the built-in alias denoting exactly t, if any
BuiltinFor(t) ==
  IF \E n \in BuiltinNames : TEq(Builtin[n], t)
  THEN CHOOSE n \in BuiltinNames : TEq(Builtin[n], t) ELSE ""

RECURSIVE CompactDict(_, _)
CompactDict(t, alias) ==
  LET kids == [i \in 1..Len(t.c) |-> CompactDict(t.c[i], alias)]
      sub == CASE t.k = "list" -> ("values" :> kids[1])
               [] t.k = "map" -> ("keys" :> kids[1]) @@ ("values" :> kids[2])
               [] t.k = "struct" -> IF kids = <<>> THEN NoA ELSE ("fields" :> JArr(kids))
               [] t.k = "union" -> ("types" :> JArr(kids))
               [] OTHER -> NoA
      plain == IF t.k = "proxy"
               THEN ("type" :> JStr(AliasOf(t))) @@ Without(t.a, {"alias"})
               ELSE ("type" :> JStr(t.k)) @@ sub @@ Slim(t.k, t.a)
      n == IndexOf(kids, LAMBDA x : x = JStr("null"))
      others == SubSeq(kids, 1, n - 1) \o SubSeq(kids, n + 1, Len(kids))
      std == {"alias", "logical", "default", "doc", "name"}
      sugar == t.k = "union" /\ n # 0 /\ Has(t.a, "default") /\ DOMAIN t.a \subseteq std
      upA == Without(t.a, IF t.a["default"].t = "null" THEN {"default"} ELSE {})
      nest == IF Len(others) = 1 THEN (IF others[1].t = "str" THEN [type |-> others[1]]
                                       ELSE IF others[1].t = "obj" THEN others[1].m ELSE NoA)
              ELSE NoA
      collapse == /\ Len(others) = 1 /\ ~Has(t.a, "alias") /\ ~Has(t.a, "logical")
                  /\ Has(nest, "type") /\ nest["type"] # JStr("union")
                  /\ DOMAIN nest \cap {"default", "name", "optional"} = {}
                  /\ ~(Has(t.a, "doc") /\ Has(nest, "doc"))
  IN IF alias /\ t.k # "proxy" /\ BuiltinFor(t) # "" THEN JStr(BuiltinFor(t))
     ELSE IF sugar
     THEN IF collapse
          THEN ObjOf(("optional" :> JTrue) @@ upA @@ nest)
          ELSE ObjOf(("optional" :> JTrue) @@ ("type" :> JStr("union"))
                     @@ ("types" :> JArr(others)) @@ upA)
     ELSE ShortObj(plain)

Lossless(t) ==
  \A d \in {LongDict(t), CompactDict(t, TRUE), CompactDict(t, FALSE)} :
     FromDict(d).ok /\ EquivT(FromDict(d).t, t)
=============================================================================
