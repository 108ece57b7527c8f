----------------------------- MODULE MC_Protobuf -----------------------------
(* All root messages of up to MaxFields elements from a pool, in files with  *)
(* and without package that also define other messages and enums.            *)
EXTENDS Protobuf, Json, IOUtils
CONSTANTS MaxFields
VARIABLES els
vars == <<els>>

Fd(ty, card) == El("field", "", ty, card, "", <<>>)
Val(n, i) == El("value", n, "", "", i, <<>>)
\* names and numbers are given by position
Pool ==
  {Fd(ty, "") : ty \in ProtoScalars \cup DOMAIN WellKnown}
  \cup {Fd(ty, c) : ty \in {"int32", "google.protobuf.NullValue", "Later", "Root", "Col"}, c \in {"optional", "required", "repeated"}}
  \cup {Fd(ty, "") : ty \in {"Root", "Later", "Col", "Nest", "Root.Nest", "Later.In", "pk.q.Later", ".pk.q.Later", ".pk.q.Root.Nest", "q.Later"}}
  \cup {MapEl("", k, v, "") : k \in {"string", "int32", "bool", "fixed64"}, v \in {"bytes", "Later", "Col"}}
  \cup {El("oneof", "", "", "", "", <<Fd("string", ""), Fd(ty, "")>>) : ty \in {"int64", "Later", "Root", "google.protobuf.NullValue"}}
Named(el, i) ==
  LET n == "f" \o DecStr(i) IN
  IF el.e = "oneof" THEN [el EXCEPT !.name = n, !.els = [j \in 1..Len(el.els) |-> [el.els[j] EXCEPT !.name = n \o "m" \o DecStr(j), !.num = DecStr(10 * i + j)]]]
  ELSE [el EXCEPT !.name = n, !.num = DecStr(10 * i)]

Init == els = <<>>
Next == \E p \in Pool : Len(els) < MaxFields /\ els' = Append(els, Named(p, Len(els) + 1))
Spec == Init /\ [][Next]_vars

In == El("enum", "In", "", "", "", <<Val("X", "0"), Val("Y", "1")>>)
Later == El("message", "Later", "", "", "", <<In, El("field", "back", "Root", "optional", "1", <<>>), El("field", "in", "In", "", "2", <<>>)>>)
Col == El("enum", "Col", "", "", "", <<Val("RED", "0"), Val("BLUE", "5")>>)
Nest == El("message", "Nest", "", "", "", <<El("field", "n", "Nest", "repeated", "1", <<>>), El("field", "c", "Col", "required", "2", <<>>)>>)
Root == El("message", "Root", "", "", "", els \o <<Nest>>)
UsesPk == \E i \in 1..Len(els) : \E r \in {els[i].type} : HasSub(r, "pk.q") \/ r = "q.Later"
Files == {[pkg |-> "pk.q", els |-> <<Col, Root, Later>>]}
         \cup (IF UsesPk THEN {} ELSE {[pkg |-> "", els |-> <<Root, Later, Col>>]})

InOrder == \A f \in Files : LET r == ProtoRead(f) IN
  r.ok /\ [i \in 1..Len(r.t.c) |-> TheName(r.t.c[i])] = [i \in 1..Len(els) |-> els[i].name]
AtMostOnce == \A f \in Files : AllDistinct(DeclNames(ProtoRead(f).t))
RefsExpandedBefore == \A f \in Files : LET t == ProtoRead(f).t IN
  \A i \in 1..Len(Proxies(t)) : AliasOf(Proxies(t)[i]) \in Range(DeclNames(t))
NullableUnlessRequired == \A f \in Files : LET t == ProtoRead(f).t IN
  \A i \in 1..Len(els) : (IsNullable(t.c[i]) /\ Has(t.c[i].a, "default")) \/ els[i].card = "required"
WrittenIsRight == \A f \in Files : LET t == ProtoRead(f).t IN
  Writable(t).ok => FileDiff(t, ProtoWrite(t)) = {}
Emit == els # <<>> => PrintT(ToJson([x |-> Files]))
=============================================================================
