----------------------------- MODULE MC_Aliases -----------------------------
EXTENDS Aliases, Json
CONSTANTS MaxOps
VARIABLE hist
vars == <<descs, hs, out, hist>>

N(t, nm) == Attr(t, "name", JStr(nm))
Al(t, a) == Attr(t, "alias", JStr(a))
Px(a) == TProxy(a)
D1 == TStruct(<<N(Al(Attr(Attr(TInt("7", FALSE), "doc", JStr("dd")), "default", JInt("4")), "v.A"), "i"),
                N(Attr(Px("v.A"), "bits", JInt("9")), "j"),
                N(Attr(Px("v.A"), "doc", JStr("other")), "k")>>)
D2 == Al(TStruct(<<N(Attr(TUnion(<<TNull, Px("v.A")>>), "default", JNull), "next"),
                   N(TList(Px("v.B")), "kids"), N(Al(TEnum(<<"X", "Y">>), "v.B"), "e")>>), "v.A")
D3 == TUnion(<<Px("v.Missing"), Px("decimal128"), Attr(Px("string32"), "bytes", JInt("5")), Px("v.B"),
               Al(Attr(TMap(Px("uuid"), Px("v.B")), "tags", JArr(<<JStr("t")>>)), "v.B")>>)
Choices == {D1, D2, D3}

Init == AInit /\ hist = <<>>
L(t) == Load(t) /\ hist' = Append(hist, [op |-> "load", t |-> t])
R(h) == Resolve(h) /\ hist' = Append(hist, [op |-> "resolve", h |-> h])
M(h) == /\ hs[h].res # <<>>
        /\ \/ SetAttr(h, <<>>, "x-y", JInt("1"))
              /\ hist' = Append(hist, [op |-> "set", h |-> h, path |-> <<>>, key |-> "x-y", val |-> JInt("1")])
           \/ /\ hs[h].res[1].k \in {"struct", "union"} /\ Len(hs[h].res[1].c) > 0
              /\ DropChild(h, <<>>)
              /\ hist' = Append(hist, [op |-> "drop", h |-> h, path |-> <<>>])
           \/ /\ hs[h].res[1].k = "enum"
              /\ Extend(h, <<>>, "symbols", JStr("Z"))
              /\ hist' = Append(hist, [op |-> "extend", h |-> h, path |-> <<>>, key |-> "symbols", val |-> JStr("Z")])
Next == /\ Len(hist) < MaxOps
        /\ \/ Len(descs) < 2 /\ \E t \in Choices : L(t)
           \/ \E h \in 1..Len(hs) : Len(hs) < 9 /\ (R(h) \/ M(h))
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* a loaded description never changes
DescriptionsFixed == [][\A i \in 1..Len(descs) : descs'[i] = descs[i]]_vars
\* at most one handle's resolved type changes in a step
OthersUntouched ==
  [][Cardinality({h \in 1..Len(hs) : hs[h].res # <<>> /\ hs'[h].res # hs[h].res}) <= 1
     /\ (hist' # hist /\ hist'[Len(hist')].op = "resolve" =>
          \A h \in 1..Len(hs) : hs[h].res # <<>> => hs'[h].res = hs[h].res)]_vars
\* a resolved type carries the reference's own attributes and never the declaration's doc, default or alias
ResolvedOK ==
  (hist # <<>> /\ hist[Len(hist)].op = "resolve" /\ out.st = "ok") =>
     LET h == hist[Len(hist)].h p == hs[h].p IN
     (\A k \in 1..Len(hist) - 1 : ~(hist[k].op # "load" /\ hist[k].h = h)) =>
        /\ ~HasAttr(out.t, "alias")
        /\ \A a \in {"doc", "default"} : HasAttr(out.t, a) <=> HasAttr(p, a)
        /\ \A a \in DOMAIN p.a \ {"alias"} : out.t.a[a] = p.a[a]
Emit == Len(hist) = MaxOps => PrintT(ToJson([hist |-> hist]))
=============================================================================
