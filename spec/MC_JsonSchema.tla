---------------------------- MODULE MC_JsonSchema ----------------------------
(* All property schemas built in MaxSteps steps, inside several objects and  *)
(* with documents that refer to each other.  TLC checks the design of        *)
(* reading and writing and prints each schema for replay.                    *)
EXTENDS JsonSchema, Json, IOUtils
CONSTANTS MaxSteps
VARIABLES x, n
vars == <<x, n>>

S(s) == JStr(s)
O1(k, v) == JObj(<<k>>, k :> v)
O2(k1, v1, k2, v2) == JObj(<<k1, k2>>, (k1 :> v1) @@ (k2 :> v2))
Add(o, k, v) == JObj(<<k>> \o SelectSeq(o.ks, LAMBDA q : q # k), (k :> v) @@ o.m)
TypeS(s) == O1("type", S(s))
Props(o, req) == LET b == O2("type", S("object"), "properties", o) IN IF req = <<>> THEN b ELSE Add(b, "required", JArr([i \in 1..Len(req) |-> S(req[i])]))
U0 == "https://ex.com/root.json"
UA == "http://example.com/schemas/A-b.json"
UB == "https://b.example.org/B"
Ref(u) == O1("$ref", S(u))

Docs == (UA :> Add(Props(O2("next", Ref(UA), "b", Ref(UB)), <<"b">>), "$id", S(UA)))
     @@ (UB :> Add(Add(TypeS("string"), "$id", S(UB)), "description", S("B doc")))

Leaves == {TypeS(s) : s \in {"string", "number", "integer", "boolean", "null", "object", "array", "other"}}
  \cup {O2("type", S("string"), "format", S(f)) : f \in {"bytes", "date", "date-time", "time", "email"}}
  \cup {O1("type", JArr(<<S("string"), S("null")>>)), O1("type", JArr(<<S("integer"), S("boolean")>>)), O1("type", JArr(<<S("null")>>))}
  \cup {Ref(U0), Ref(UA), Ref(UB), Ref("http://nowhere.example/x"), O1("$dynamicRef", S(UB)), JObj(<<>>, NoA), JTrue}

Init == x \in Leaves /\ n = 0
Has1(k) == x.t = "obj" /\ OHas(x, k)
Step ==
  \/ x' = O2("type", S("array"), "items", x)
  \/ x' = Props(O1("p", x), <<>>)
  \/ x' = Props(O1("p", x), <<"p">>)
  \/ x' = Props(O2("p", x, "q", Ref(UB)), <<"q", "zzz">>)
  \/ x.t = "obj" /\ ~Has1("description") /\ x' = Add(x, "description", S("d" \o DecStr(n)))
  \/ x.t = "obj" /\ ~Has1("default") /\ x' = Add(x, "default", JInt("0"))
  \/ x.t = "obj" /\ ~Has1("default") /\ x' = Add(x, "default", JNull)
  \/ x.t = "obj" /\ ~Has1("$id") /\ ~Has1("$ref") /\ ~Has1("$dynamicRef") /\ x' = Add(x, "$id", S("https://x.ex.com/In/n" \o DecStr(n)))
Next == n < MaxSteps /\ n' = n + 1 /\ Step
Spec == Init /\ [][Next]_vars

Roots ==
  {Add(Props(O2("z", x, "a", x), <<"a">>), "$id", S(U0)),
   Add(Props(O2("b", Ref(UB), "f", x), <<"f", "b">>), "description", S("root doc"))}

Fields(r) == r.m["properties"].ks
FieldsInOrder == \A r \in Roots : LET a == JsonRead(r, Docs) IN
  a.ok => [i \in 1..Len(a.t.c) |-> FieldName(a.t.c[i])] = Fields(r)
OptionalIffNotRequired == \A r \in Roots : LET a == JsonRead(r, Docs) IN
  a.ok => \A i \in 1..Len(a.t.c) : FieldName(a.t.c[i]) \notin Strs(r.m["required"]) => IsNullable(a.t.c[i]) /\ Has(a.t.c[i].a, "default")
RECURSIVE Proxies(_)
Proxies(t) == IF t.k = "proxy" THEN <<t>> ELSE FlattenSeq2([i \in 1..Len(t.c) |-> Proxies(t.c[i])])
RefsResolve == \A r \in Roots : LET a == JsonRead(r, Docs) IN
  a.ok => \A i \in 1..Len(Proxies(a.t)) :
     \/ Has(JsonReg(a), AliasOf(Proxies(a.t)[i]))
     \/ AliasOf(Proxies(a.t)[i]) = UrnAlias(U0) /\ ~OHas(r, "$id")
WrittenMatches == \A r \in Roots : LET a == JsonRead(r, Docs) IN
  (a.ok /\ AllDistinct(DeclNames(a.t))) =>
     LET w == JsonWrite(a.t) IN Diff(a.t, w, NoA, Defs(w), RegOf(a.t), "$") = {} /\ DefsDiff(a.t, w) = {} /\ Undefined(w) = {}
ASSUME UrnAlias(UA) = "com.example.schemas.a.b.json" /\ UrnAlias("http://a.b") = "b.a" /\ UrnAlias("http://a.b/") = "b.a"
Emit == PrintT(ToJson([x |-> Roots, docs |-> Docs]))
=============================================================================
