----------------------------- MODULE TypeValues -----------------------------
(* Recap types as values: constructors, built-in aliases, validity,          *)
(* normal form and equivalence.                                              *)
EXTENDS Base

Ty(k, a, c) == [k |-> k, a |-> a, c |-> c]
NoA == EmptyMap

TNull == Ty("null", NoA, <<>>)
TBool == Ty("bool", NoA, <<>>)
TInt(bits, signed) == Ty("int", [bits |-> JInt(bits), signed |-> JBool(signed)], <<>>)
TFloat(bits) == Ty("float", [bits |-> JInt(bits)], <<>>)
StrLike(k, bytes, var) ==
  Ty(k, (IF bytes = "" THEN NoA ELSE ("bytes" :> JInt(bytes))) @@ ("variable" :> JBool(var)), <<>>)
TString(bytes, var) == StrLike("string", bytes, var)     \* bytes "" : no length
TBytes(bytes, var) == StrLike("bytes", bytes, var)
TList(v) == Ty("list", [variable |-> JTrue], <<v>>)
TMap(k, v) == Ty("map", NoA, <<k, v>>)
TStruct(fs) == Ty("struct", NoA, fs)
TUnion(ts) == Ty("union", NoA, ts)
TEnum(syms) == Ty("enum", [symbols |-> JArr([i \in 1..Len(syms) |-> JStr(syms[i])])], <<>>)
TProxy(alias) == Ty("proxy", [alias |-> JStr(alias)], <<>>)

Attr(t, k, v) == [t EXCEPT !.a = With(t.a, k, v)]
AttrS(t, m) == [t EXCEPT !.a = m @@ t.a]
Unattr(t, S) == [t EXCEPT !.a = Without(t.a, S)]
HasAttr(t, k) == Has(t.a, k)
AliasOf(t) == IF Has(t.a, "alias") THEN t.a["alias"].v ELSE ""
Logical(t, l) == Attr(t, "logical", JStr(l))

\* attributes that define the type itself; the rest are logical, alias, doc, name,
\* default and free-form attributes
OwnAttrs(k) ==
  CASE k = "int" -> {"bits", "signed"}
    [] k = "float" -> {"bits"}
    [] k \in {"string", "bytes"} -> {"bytes", "variable"}
    [] k = "list" -> {"length", "variable"}
    [] k = "enum" -> {"symbols"}
    [] OTHER -> {}

Kinds == {"null", "bool", "int", "float", "string", "bytes", "list", "map", "struct",
          "enum", "union"}
------------------------------------------------------------------------------
(* The built-in aliases, as documented *)
U(t, unit) == Attr(t, "unit", JStr(unit))
Dec(bytes, p, s) ==
  Logical(Attr(Attr(TBytes(bytes, FALSE), "precision", JInt(p)), "scale", JInt(s)), "build.recap.Decimal")

Builtin ==
     ("int8" :> TInt("8", TRUE)) @@ ("uint8" :> TInt("8", FALSE))
  @@ ("int16" :> TInt("16", TRUE)) @@ ("uint16" :> TInt("16", FALSE))
  @@ ("int32" :> TInt("32", TRUE)) @@ ("uint32" :> TInt("32", FALSE))
  @@ ("int64" :> TInt("64", TRUE)) @@ ("uint64" :> TInt("64", FALSE))
  @@ ("float16" :> TFloat("16")) @@ ("float32" :> TFloat("32")) @@ ("float64" :> TFloat("64"))
  @@ ("string32" :> TString(Two31, TRUE)) @@ ("string64" :> TString(MaxI64, TRUE))
  @@ ("bytes32" :> TBytes(Two31, TRUE)) @@ ("bytes64" :> TBytes(MaxI64, TRUE))
  @@ ("uuid" :> Logical(TString("36", FALSE), "build.recap.UUID"))
  @@ ("decimal128" :> Dec("16", "28", "14"))
  @@ ("decimal256" :> Dec("32", "56", "28"))
  @@ ("duration64" :> U(Logical(TInt("64", TRUE), "build.recap.Duration"), "millisecond"))
  @@ ("interval128" :> U(Logical(TBytes("16", FALSE), "build.recap.Interval"), "millisecond"))
  @@ ("time32" :> U(Logical(TInt("32", TRUE), "build.recap.Time"), "second"))
  @@ ("time64" :> U(Logical(TInt("64", TRUE), "build.recap.Time"), "second"))
  @@ ("timestamp64" :> Attr(U(Logical(TInt("64", TRUE), "build.recap.Timestamp"), "millisecond"), "timezone", JStr("UTC")))
  @@ ("date32" :> U(Logical(TInt("32", TRUE), "build.recap.Date"), "day"))
  @@ ("date64" :> U(Logical(TInt("64", TRUE), "build.recap.Date"), "day"))
BuiltinNames == DOMAIN Builtin

------------------------------------------------------------------------------
(* Validity *)
InRange(j, lo, hi) == j.t = "int" /\ DecLeq(lo, j.v) /\ DecLeq(j.v, hi)

\* a fully qualified alias: at least two dot-separated identifiers
IsIdent(s) == s # "" /\ Ch(s, 1) \in (Alpha \cup {"_"}) /\ Chars(s) \subseteq (AlphaNum \cup {"_"})
IsFqn(s) == LET p == Split(s, ".") IN Len(p) >= 2 /\ \A i \in 1..Len(p) : IsIdent(p[i])

SizeOk(t) ==
  CASE t.k \in {"int", "float"} -> InRange(t.a["bits"], "1", MaxI32)
    [] t.k \in {"string", "bytes"} ->
         /\ IsTrue(t.a["variable"]) \/ Has(t.a, "bytes")
         /\ Has(t.a, "bytes") => InRange(t.a["bytes"], "1", MaxI64)
    [] t.k = "list" ->
         /\ IsTrue(t.a["variable"]) \/ Has(t.a, "length")
         /\ Has(t.a, "length") => InRange(t.a["length"], "1", MaxI64)
    [] OTHER -> TRUE

RECURSIVE AllSizesOk(_)
AllSizesOk(t) == SizeOk(t) /\ \A i \in 1..Len(t.c) : AllSizesOk(t.c[i])

\* the aliases declared in t, innermost first, left to right (declaration order)
RECURSIVE Declared(_)
Declared(t) ==
  FlattenSeq2([i \in 1..Len(t.c) |-> Declared(t.c[i])])
  \o (IF t.k # "proxy" /\ Has(t.a, "alias") THEN <<<<t.a["alias"].v, t>>>> ELSE <<>>)
DeclNames(t) == LET d == Declared(t) IN [i \in 1..Len(d) |-> d[i][1]]

AliasesOk(t) ==
  LET ns == DeclNames(t) IN AllDistinct(ns) /\ \A i \in 1..Len(ns) : IsFqn(ns[i]) /\ ns[i] \notin BuiltinNames

Valid(t) == AllSizesOk(t) /\ AliasesOk(t)

------------------------------------------------------------------------------
(* Resolution of references *)
\* what a declaration contributes: without alias, doc and default
Definition(t) == Unattr(t, {"alias", "doc", "default"})

\* reg: alias -> definition
RegOf(t) ==
  LET d == Declared(t) IN
  [n \in {d[i][1] : i \in 1..Len(d)} |->
     Definition(d[CHOOSE i \in 1..Len(d) : d[i][1] = n][2])] @@ Builtin
\* (with @@ the left operand wins; declared names are never built-in names)

\* the reference's attributes override those of the definition
Resolve1(p, reg) == AttrS(reg[AliasOf(p)], Without(p.a, {"alias"}))

------------------------------------------------------------------------------
(* Equivalence of types.  Norm replaces references to built-in aliases by the type *)
(* they stand for (with their overrides), and puts an optional type - a union with *)
(* a plain null and a default - into one canonical form.                           *)
IsPlainNull(t) == t.k = "null" /\ DOMAIN t.a = {}
IsNullK(t) == t.k = "null"

RECURSIVE Norm(_)
Norm(t) ==
  IF t.k = "proxy" /\ AliasOf(t) \in BuiltinNames
  THEN AttrS(Builtin[AliasOf(t)], Without(t.a, {"alias"}))
  ELSE
    LET c2 == [i \in 1..Len(t.c) |-> Norm(t.c[i])]
        n == IndexOf(c2, IsPlainNull)
    IN IF t.k = "union" /\ n # 0 /\ Has(t.a, "default")
       THEN \* null first; doc of a sole alternative belongs to the optional type
            LET rest == SubSeq(c2, 1, n - 1) \o SubSeq(c2, n + 1, Len(c2))
            IN [t EXCEPT !.c = <<TNull>> \o rest]
       ELSE [t EXCEPT !.c = c2]

RECURSIVE TEq(_, _)
TEq(x, y) ==
  /\ x.k = y.k
  /\ AEq(x.a, y.a)
  /\ Len(x.c) = Len(y.c)
  /\ \A i \in 1..Len(x.c) : TEq(x.c[i], y.c[i])

Equiv(x, y) == TEq(Norm(x), Norm(y))

RECURSIVE WellShaped(_)
\* the encoding of a real object is an actual Recap type all the way down
WellShaped(t) ==
  /\ t.k \in Kinds \cup {"proxy"}
  /\ \A i \in 1..Len(t.c) : WellShaped(t.c[i])

IsNullable(t) == t.k = "null" \/ (t.k = "union" /\ \E i \in 1..Len(t.c) : t.c[i].k = "null")
IsOptional(t) ==
  /\ t.k = "union" /\ Has(t.a, "default")
  /\ \E i \in 1..Len(t.c) : IsPlainNull(t.c[i])
  /\ Cardinality({i \in 1..Len(t.c) : ~IsPlainNull(t.c[i])}) = 1

MakeNullable(t) ==
  LET up == ("default" :> Get(t.a, "default", JNull))
            @@ (IF Has(t.a, "doc") THEN ("doc" :> t.a["doc"]) ELSE NoA)
            @@ (IF Has(t.a, "name") THEN ("name" :> t.a["name"]) ELSE NoA)
      low == Unattr(t, {"default", "doc", "name"})
      hasNull == \E i \in 1..Len(t.c) : t.c[i].k = "null"
  IN IF t.k = "union" /\ (hasNull \/ ~Has(t.a, "alias"))
     THEN [AttrS(low, up) EXCEPT !.c = (IF hasNull THEN <<>> ELSE <<TNull>>) \o t.c]
     ELSE Ty("union", up,
             (IF t.k = "null" THEN <<>> ELSE <<TNull>>) \o <<low>>)
=============================================================================
