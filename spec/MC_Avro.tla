------------------------------- MODULE MC_Avro -------------------------------
(* All Avro field types built in MaxSteps steps inside a record, with names  *)
(* in several namespaces.  TLC checks the design - references resolve, and   *)
(* what is written reads back at least as wide - and prints each schema for  *)
(* replay into the real converter.                                           *)
EXTENDS Avro, Json, IOUtils
CONSTANTS MaxSteps
VARIABLES x, n
vars == <<x, n>>

O2(k1, v1, k2, v2) == ObjOf((k1 :> v1) @@ (k2 :> v2))
S(s) == JStr(s)
Sym == JArr(<<S("A"), S("B")>>)
Lg(ty, l) == O2("type", S(ty), "logicalType", S(l))
With1(o, k, v) == ObjOf((k :> v) @@ AObj(o).m)
Fixed(nm, size) == ObjOf(TypeIs("fixed") @@ ("name" :> S(nm)) @@ ("size" :> JInt(size)))

Leaves ==
  {S(p) : p \in Primitives}
  \cup {ObjOf([type |-> S("int")]), S("Root"), S("com.ex.Root"), S("Later"), S("other.Later"),
        ObjOf(TypeIs("enum") @@ ("name" :> S("E")) @@ ("symbols" :> Sym)),
        ObjOf(TypeIs("enum") @@ ("name" :> S("x.y.E")) @@ ("symbols" :> Sym) @@ ("default" :> S("A")) @@ ("doc" :> S("ed"))),
        ObjOf(TypeIs("enum") @@ ("name" :> S("E")) @@ ("namespace" :> S("")) @@ ("symbols" :> Sym)),
        Fixed("F", "16"), With1(Fixed("F", "3"), "namespace", S("q")),
        Lg("string", "uuid"), Lg("int", "date"), Lg("int", "time-millis"), Lg("long", "time-micros"),
        Lg("long", "timestamp-millis"), Lg("long", "timestamp-micros"), Lg("string", "nosuch"),
        With1(Fixed("Du", "12"), "logicalType", S("duration")),
        With1(With1(Fixed("De", "8"), "logicalType", S("decimal")), "precision", JInt("4")),
        With1(With1(Lg("bytes", "decimal"), "precision", JInt("9")), "scale", JInt("2"))}

F(nm, ty) == O2("name", S(nm), "type", ty)
Rec(nm, fs) == ObjOf(TypeIs("record") @@ ("name" :> S(nm)) @@ ("fields" :> JArr(fs)))

Init == x \in Leaves /\ n = 0
Step ==
  \/ x' = O2("type", S("array"), "items", x)
  \/ x' = O2("type", S("map"), "values", x)
  \/ x.t # "arr" /\ x' = JArr(<<S("null"), x>>)
  \/ x.t # "arr" /\ x' = JArr(<<x, S("null"), S("string")>>)
  \/ x' = ObjOf([type |-> x])
  \/ x.t # "arr" /\ x' = O2("type", S("union"), "types", JArr(<<x, S("null")>>))
  \/ x' = With1(x, "doc", S("inner"))
  \/ x' = Rec("N" \o DecStr(n), <<F("a", x), F("self", JArr(<<S("null"), S("N" \o DecStr(n))>>))>>)
  \/ x' = Rec("z.N" \o DecStr(n), <<F("a", x), F("b", S("Root"))>>)
  \/ x' = With1(Rec("N" \o DecStr(n), <<With1(F("a", x), "doc", S("fd"))>>), "namespace", S("k.l"))
Next == n < MaxSteps /\ n' = n + 1 /\ Step
Spec == Init /\ [][Next]_vars

\* the schema around x: a root record in one of several namespaces, with a second use of each name
Field == With1(With1(F("f", x), "doc", S("fdoc")), "default", JNull)
LaterRec == Rec("Later", <<F("a", S("int"))>>)
Roots ==
  {Rec("Root", <<F("f", x), F("g", LaterRec), F("h", S("E"))>>),
   With1(Rec("Root", <<F("pre", S("Later")), Field, F("g", LaterRec)>>), "namespace", S("com.ex")),
   With1(Rec("com.ex.Root", <<F("f", x), F("e", S("F")), F("d", S("Du"))>>), "doc", S("rd"))}

\* every name that is defined is found by every reference that means it
ReadIsStruct == \A r \in Roots : LET a == AvroRead(r) IN a.ok => a.t.k = "struct" /\ Len(a.t.c) = Len(r.m["fields"].c)
SelfRefsResolve == \A r \in Roots : LET a == AvroRead(r) reg == AvroReg(a) IN
  a.ok => \A i \in 1..Len(Proxies(a.t)) : AliasOf(Proxies(a.t)[i]) \in {"com.ex.Root", "k.l.N0", "z.N0"} =>
             (Has(reg, AliasOf(Proxies(a.t)[i])) \/ AliasOf(Proxies(a.t)[i]) = "com.ex.Root")
WrittenIsWide == \A r \in Roots : LET a == AvroRead(r) IN
  (a.ok /\ \A i \in 1..Len(Proxies(a.t)) : Has(AvroReg(a), AliasOf(Proxies(a.t)[i])))
  => LET w == AvroWrite(a.t) b == AvroRead(ObjOf(w.m)) IN w.ok /\ b.ok /\ Wide(a.t, AvroReg(a), b.t, AvroReg(b))
Emit == PrintT(ToJson([x |-> Roots]))
=============================================================================
