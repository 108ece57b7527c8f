------------------------------ MODULE Aliases ------------------------------
(* Descriptions that are loaded, references in them that are resolved, and   *)
(* resolved types that are modified.  A handle is one reference object: its  *)
(* description, the reference and, once resolved, the type it resolved to.   *)
EXTENDS RecapTypes

VARIABLES
  descs,   \* loaded types, in order
  hs,      \* handles: [d: index into descs, p: the reference, res: <<>> or <<type>>]
  out      \* result of the last operation
avars == <<descs, hs, out>>

\* references in a type, in preorder
RECURSIVE Refs(_)
Refs(t) == IF t.k = "proxy" THEN <<t>> ELSE FlattenSeq2([i \in 1..Len(t.c) |-> Refs(t.c[i])])

Handles(i, t) == LET rs == Refs(t) IN [j \in 1..Len(rs) |-> [d |-> i, p |-> rs[j], res |-> <<>>]]

Ok(t) == [st |-> "ok", t |-> t]
Error == [st |-> "err", t |-> TNull]

AInit == descs = <<>> /\ hs = <<>> /\ out = Error

Load(t) ==
  /\ descs' = Append(descs, t)
  /\ hs' = hs \o Handles(Len(descs) + 1, t)
  /\ out' = Ok(t)

\* the reference's own description decides what its alias means; nothing else is affected
Resolve(h) ==
  LET reg == RegOf(descs[hs[h].d])
      known == Has(reg, AliasOf(hs[h].p))
      r == IF known THEN Resolve1(hs[h].p, reg) ELSE TNull
  IN IF hs[h].res # <<>>
     THEN out' = Ok(hs[h].res[1]) /\ UNCHANGED <<descs, hs>>
     ELSE IF known
     THEN /\ hs' = [hs EXCEPT ![h].res = <<r>>] \o Handles(hs[h].d, r)
          /\ out' = Ok(r)
          /\ UNCHANGED descs
     ELSE out' = Error /\ UNCHANGED <<descs, hs>>

\* modify the type that handle h resolved to, at a node that is not a reference
RECURSIVE PutAt(_, _, _)
PutAt(t, path, x) ==
  IF path = <<>> THEN x
  ELSE [t EXCEPT !.c = [i \in 1..Len(t.c) |-> IF i = Head(path) THEN PutAt(t.c[i], Tail(path), x) ELSE t.c[i]]]
RECURSIVE NodeAt(_, _)
NodeAt(t, path) == IF path = <<>> THEN t ELSE NodeAt(t.c[Head(path)], Tail(path))
AtNode(t, path, F(_)) == PutAt(t, path, F(NodeAt(t, path)))

SetAttr(h, path, key, val) ==
  /\ hs[h].res # <<>>
  /\ hs' = [hs EXCEPT ![h].res = <<AtNode(@[1], path, LAMBDA x : Attr(x, key, val))>>]
  /\ out' = Ok(TNull)
  /\ UNCHANGED descs

\* append to an attribute that is a list (enum symbols, or a free-form one)
Extend(h, path, key, val) ==
  /\ hs[h].res # <<>>
  /\ hs' = [hs EXCEPT ![h].res =
        <<AtNode(@[1], path, LAMBDA x : Attr(x, key, JArr(Append(x.a[key].c, val))))>>]
  /\ out' = Ok(TNull)
  /\ UNCHANGED descs

\* drop the last child (a struct field or union alternative)
DropChild(h, path) ==
  /\ hs[h].res # <<>>
  /\ hs' = [hs EXCEPT ![h].res =
        <<AtNode(@[1], path, LAMBDA x : [x EXCEPT !.c = SubSeq(@, 1, Len(@) - 1)])>>]
  /\ out' = Ok(TNull)
  /\ UNCHANGED descs
=============================================================================
