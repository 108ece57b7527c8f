------------------------------ MODULE MC_Types ------------------------------
(* All types reachable from the leaves in MaxSteps construction steps.  TLC  *)
(* checks the design-level properties on each and prints it, so that it can  *)
(* be replayed into the real code.                                           *)
EXTENDS RecapTypes, Json, IOUtils
CONSTANTS MaxSteps, Rich
VARIABLES t, n
vars == <<t, n>>

Leaves ==
  {TNull, TBool, TInt("32", TRUE), TInt("33", FALSE), TFloat("64"), TString("", TRUE),
   TString("5", FALSE), TBytes(Two31, TRUE), TEnum(<<"A", "B">>), TStruct(<<>>),
   TProxy("int32"), TProxy("uuid"), TProxy("v.Later"),
   Attr(TProxy("string32"), "bytes", JInt("7"))}
  \cup (IF Rich THEN {Builtin[x] : x \in BuiltinNames} \cup {TProxy(x) : x \in BuiltinNames}
                     \cup {TInt("1", TRUE), TInt(MaxI32, FALSE), TFloat("16"), TBytes("1", FALSE),
                           TString(MaxI64, TRUE), TBytes("16", TRUE)}
        ELSE {})

Named(x, nm) == Attr(x, "name", JStr(nm))
AliasName == "v.A" \o DecStr(n)

Init == t \in Leaves /\ n = 0

WrapList == t' = TList(t)
WrapFixedList == t' = Attr(Attr(TList(t), "length", JInt("3")), "variable", JFalse)
WrapMap == t' = TMap(TString("", TRUE), t)
WrapStruct == t' = TStruct(<<Named(t, "f")>>)
WrapStructMore == t' = TStruct(<<Named(TInt("32", TRUE), "a"), Named(t, "f"), Named(TProxy("v.A0"), "r")>>)
WrapUnion == t' = TUnion(<<t, TBool>>)
WrapUnionNull == t.k # "null" /\ t' = TUnion(<<t, TNull>>)
WrapOptional == t.k # "null" /\ t' = Attr(TUnion(<<TNull, t>>), "default", JNull)
Nullable == t' = MakeNullable(t)
AddDoc == ~HasAttr(t, "doc") /\ t' = Attr(t, "doc", JStr("d" \o DecStr(n)))
AddDefault == ~HasAttr(t, "default") /\ t' = Attr(t, "default", JInt("0"))
AddName == ~HasAttr(t, "name") /\ t' = Named(t, "nm")
AddExtra == ~HasAttr(t, "x-y") /\ t' = Attr(t, "x-y", JArr(<<JNull, JStr("")>>))
AddAlias == t.k \notin {"proxy", "null"} /\ ~HasAttr(t, "alias") /\ t' = Attr(t, "alias", JStr(AliasName))
AddLogical == t.k # "proxy" /\ ~HasAttr(t, "logical") /\ t' = Logical(t, "my.Logical")

Step == WrapList \/ WrapFixedList \/ WrapMap \/ WrapStruct \/ WrapStructMore \/ WrapUnion
        \/ WrapUnionNull \/ WrapOptional \/ Nullable
        \/ AddDoc \/ AddDefault \/ AddName \/ AddExtra \/ AddAlias \/ AddLogical
Next == n < MaxSteps /\ n' = n + 1 /\ Step
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
TypeOK == Valid(t)
DescriptionsAreLossless == Lossless(t)
NullabilityOK ==
  LET u == MakeNullable(t) IN
  /\ u.k = "union" /\ IsNullable(u) /\ Has(u.a, "default")
  /\ TEq(MakeNullable(u), u)                 \* idempotent
  /\ Valid(u)
  /\ Get(u.a, "name", JNull) = Get(t.a, "name", JNull)
  /\ Get(u.a, "doc", JNull) = Get(t.a, "doc", JNull)
EquivalenceIsReflexive == EquivT(t, t)
\* equivalence distinguishes: dropping any attribute or child is noticed
RECURSIVE Mutants(_)
Mutants(x) ==
  {[x EXCEPT !.a = Without(x.a, {k})] : k \in (DOMAIN x.a \ {"doc", "alias"})}
  \cup (IF Len(x.c) > 1 THEN {[x EXCEPT !.c = Tail(x.c)]} ELSE {})
  \cup UNION {{[x EXCEPT !.c[i] = y] : y \in Mutants(x.c[i])} : i \in 1..Len(x.c)}
EquivalenceDiscriminates == n = MaxSteps \/ \A m \in Mutants(t) : ~EquivT(m, t)

Emit == PrintT(ToJson([t |-> t]))
=============================================================================
