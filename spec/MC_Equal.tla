------------------------------- MODULE MC_Equal -------------------------------
(* All types reachable in MaxSteps steps, and every change of one place of    *)
(* them: equality is by content, so no change goes unnoticed.                 *)
EXTENDS MC_Types

Without1(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Twice(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
Swapped(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Other(v) == IF v.t = "null" THEN {JInt("7"), JStr("")} ELSE IF v.t = "bool" THEN {JBool(v.v # "true")} ELSE IF v.t = "str" THEN {JStr(v.v \o "x"), JNull}
            ELSE IF v.t = "arr" THEN {JArr(Append(v.c, JStr("Z"))), JArr(<<>>)} ELSE {JInt("99")}
\* attributes that a type can do without
Droppable(x) == DOMAIN x.a \ (OwnAttrs(x.k) \cup (IF x.k = "proxy" THEN {"alias"} ELSE {}))
Kin == {{"string", "bytes"}, {"null", "bool"}, {"struct", "union"}}
RECURSIVE Changes(_)
Changes(x) ==
  {y \in
    {[x EXCEPT !.a = Without(x.a, {k})] : k \in Droppable(x)}
    \cup UNION {{Attr(x, k, v) : v \in IF k \in {"doc", "alias", "logical"} \/ k \in OwnAttrs(x.k) THEN Other(x.a[k]) \ {JNull} ELSE Other(x.a[k])} : k \in DOMAIN x.a}
    \cup {Attr(x, "zz", JNull), Attr(x, "doc", JStr("")), Attr(x, "default", JNull), Attr(x, "logical", JStr("l"))}
    \cup (IF x.k = "proxy" THEN {} ELSE {Attr(x, "alias", JStr("v.Q"))})
    \cup UNION {{[x EXCEPT !.k = k] : k \in ks \ {x.k}} : ks \in {s \in Kin : x.k \in s}}
    \cup (IF x.k \in {"struct", "union"}
          THEN {[x EXCEPT !.c = Without1(x.c, i)] : i \in 1..Len(x.c)} \cup {[x EXCEPT !.c = Twice(x.c, i)] : i \in 1..Len(x.c)} ELSE {})
    \cup {[x EXCEPT !.c = Swapped(x.c, i, j)] : i, j \in 1..Len(x.c)}
    : ~TEq(x, y)}
  \cup UNION {{[x EXCEPT !.c[i] = y] : y \in Changes(x.c[i])} : i \in 1..Len(x.c)}

EqualByContent ==
  /\ TEq(t, t)
  /\ \A m \in Changes(t) : ~TEq(t, m) /\ ~TEq(m, t)
EmitChanges == PrintT(ToJson([t |-> t, c |-> Changes(t)]))
=============================================================================
