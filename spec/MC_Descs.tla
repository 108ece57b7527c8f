------------------------------ MODULE MC_Descs ------------------------------
(* Descriptions, well-formed and malformed, built step by step.  TLC checks   *)
(* that shorthands mean the same as the long forms and that a description is  *)
(* accepted exactly when all its parts are, and prints each one for replay.   *)
EXTENDS RecapTypes, Json
CONSTANTS MaxSteps
VARIABLES d, n
vars == <<d, n>>

S(s) == JStr(s)
O(m) == ObjOf(m)
I(x) == JInt(x)
Sizes == {I("0"), I("1"), I("32"), I("-1"), I(MaxI32), I("2147483648"), JNull, JStr("32")}
Lengths == {I("0"), I("1"), I("16"), I("-5"), I(MaxI64), I("9223372036854775808"), JNull, JStr("8")}
Aliases == {S("a.B"), S("int32"), S("B"), S("a.1x"), S("a..B"), S(".a.b"), S("a.b."), S("a.b-c"), S("_x.y.Z9"), S(""), JNull}

Leaves ==
  {S("null"), S("bool"), S("int"), S("float"), S("string"), S("bytes"), S("list"), S("map"), S("struct"),
   S("enum"), S("union"), S("int32"), S("a.B"), S("v.Unknown"), JNull, I("3"), JTrue, O(NoA),
   O("name" :> S("x")), O("type" :> JNull), O("type" :> I("1")), O("type" :> O("type" :> S("bool")))}
  \cup {O("type" :> S(k) @@ "bits" :> b) : k \in {"int", "float"}, b \in Sizes}
  \cup {O("type" :> S("int") @@ "bits" :> I("8") @@ "signed" :> s) : s \in {JTrue, JFalse}}
  \cup {O("type" :> S(k) @@ "bytes" :> b @@ v) : k \in {"string", "bytes"}, b \in Lengths,
          v \in {NoA, "variable" :> JFalse, "variable" :> JTrue}}
  \cup {O("type" :> S(k) @@ "variable" :> v) : k \in {"string", "bytes"}, v \in {JTrue, JFalse}}
  \cup {O("type" :> S("enum") @@ "symbols" :> JArr(<<S("A"), S("B")>>))}
  \cup {O("type" :> S("list") @@ "values" :> S("bool") @@ "length" :> b @@ v) : b \in Lengths,
          v \in {NoA, "variable" :> JFalse, "variable" :> JTrue}}
  \cup {O("type" :> S("list") @@ "values" :> S("bool") @@ "variable" :> JFalse)}
  \cup {O("type" :> S("bool") @@ "alias" :> a) : a \in Aliases}
  \cup {O("type" :> S("map") @@ "keys" :> S("string")), O("type" :> S("map") @@ "values" :> S("string")),
        O("type" :> S("struct") @@ "fields" :> JArr(<<>>)), O("type" :> S("union") @@ "types" :> JArr(<<>>)),
        JArr(<<>>), JArr(<<S("null"), S("bool")>>), O("type" :> JArr(<<S("null"), S("int64")>>))}

IsObjT == d.t = "obj" /\ Has(d.m, "type")
Init == d \in Leaves /\ n = 0
InList == d' = O("type" :> S("list") @@ "values" :> d)
InMapKey == d' = O("type" :> S("map") @@ "keys" :> d @@ "values" :> S("bool"))
InMapValue == d' = O("type" :> S("map") @@ "keys" :> S("string") @@ "values" :> d)
InStruct == d' = O("type" :> S("struct") @@ "fields" :> JArr(<<O("type" :> S("int64") @@ "name" :> S("i")), d>>))
InUnion == d' = O("type" :> S("union") @@ "types" :> JArr(<<S("bool"), d>>))
InShortUnion == d' = JArr(<<d, S("null")>>)
InTypeList == d' = O("type" :> JArr(<<S("null"), d>>) @@ "doc" :> S("tl"))
Twice == d' = O("type" :> S("struct") @@ "fields" :> JArr(<<d, d>>))
AliasAgain == d' = O("type" :> S("list") @@ "values" :> d @@ "alias" :> S("a.B"))
Optional == IsObjT /\ d.m["type"].t # "arr" /\ ~Has(d.m, "optional") /\ d' = O(With(d.m, "optional", JTrue))
NotOptional == IsObjT /\ ~Has(d.m, "optional") /\ d' = O(With(d.m, "optional", JFalse))
Named == IsObjT /\ ~Has(d.m, "name") /\ d' = O(With(d.m, "name", S("nm")))
Documented == IsObjT /\ ~Has(d.m, "doc") /\ d' = O(With(d.m, "doc", S("dc")))
Defaulted == IsObjT /\ ~Has(d.m, "default") /\ \E v \in {JNull, I("5"), JFalse} : d' = O(With(d.m, "default", v))
Extra == IsObjT /\ ~Has(d.m, "x-y") /\ d' = O(With(With(d.m, "x-y", JArr(<<O("q" :> JNull)>>)), "logical", S("my.L")))
Next == n < MaxSteps /\ n' = n + 1
        /\ (InList \/ InMapKey \/ InMapValue \/ InStruct \/ InUnion \/ InShortUnion \/ InTypeList \/ Twice
            \/ AliasAgain \/ Optional \/ NotOptional \/ Named \/ Documented \/ Defaulted \/ Extra)
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
r == FromDict(d)
AcceptedIsValid == r.ok => Valid(r.t) /\ WellShaped(r.t)
ShorthandsAgree ==
  /\ d.t = "str" => TEq(FromDict(d).t, FromDict(O("type" :> d)).t)
  /\ d.t = "arr" => LET x == FromDict(O("type" :> S("union") @@ "types" :> d))
                        y == FromDict(O("type" :> d))
                    IN x.ok = r.ok /\ y.ok = r.ok /\ TEq(x.t, r.t) /\ TEq(y.t, r.t)
  /\ (IsObjT /\ r.ok /\ ~Has(d.m, "optional") /\ d.m["type"].t = "str") =>
       LET o == FromDict(O(With(d.m, "optional", JTrue))) IN
       o.ok /\ IsNullable(o.t) /\ Has(o.t.a, "default")
       /\ Get(o.t.a, "name", JNull) = Get(r.t.a, "name", JNull)
PartsDecide ==
  \* wrapping a description neither cures nor breaks it, unless aliases clash
  LET w == FromDict(O("type" :> S("list") @@ "values" :> d)) IN w.ok = r.ok
WrittenIsAccepted == r.ok => FromDict(LongDict(r.t)).ok /\ TEq(FromDict(LongDict(r.t)).t, r.t)
Emit == PrintT(ToJson([d |-> d, ok |-> r.ok]))
=============================================================================
