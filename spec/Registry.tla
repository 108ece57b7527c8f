------------------------------ MODULE Registry ------------------------------
(* The schema registry: a versioned map from names to types.                  *)
(* Versions are decimal strings (any size); "" means that none was given.     *)
EXTENDS RecapTypes

VARIABLES
  store,    \* name -> version -> type, only names with a version
  rout      \* answer of the last operation

rvars == <<store, rout>>

\* successor of a non-negative decimal
RECURSIVE DecSucc(_)
DecSucc(d) ==
  IF d = "" THEN "1"
  ELSE LET n == Len(d) c == Ch(d, n) pre == SubSeq(d, 1, n - 1)
       IN IF c = "9" THEN DecSucc(pre) \o "0" ELSE pre \o Ch(DigitStr, DigitVal(c) + 2)

Known(n) == n \in DOMAIN store
VersionsOf(n) == IF Known(n) THEN DOMAIN store[n] ELSE {}
MaxVersion(V) == CHOOSE v \in V : \A w \in V : DecLeq(w, v)
NextVersion(n) == IF VersionsOf(n) = {} THEN "1" ELSE DecSucc(MaxVersion(VersionsOf(n)))
Written(n, v, t) ==
  (n :> ((v :> t) @@ (IF Known(n) THEN store[n] ELSE [x \in {} |-> t]))) @@ store

Absent == [st |-> "absent"]
RInit == store = [x \in {} |-> TNull] /\ rout = Absent

\* write: with a version under that version, else under the next one
Put(n, v, t) ==
  LET w == IF v = "" THEN NextVersion(n) ELSE v
  IN store' = Written(n, w, t) /\ rout' = [st |-> "ok", v |-> w]

\* read: with a version that version, else the highest
Fetch(n, v) ==
  /\ rout' = IF VersionsOf(n) = {} THEN Absent
             ELSE LET w == IF v = "" THEN MaxVersion(VersionsOf(n)) ELSE v
                  IN IF w \in VersionsOf(n) THEN [st |-> "ok", v |-> w, t |-> store[n][w]] ELSE Absent
  /\ UNCHANGED store

Versions(n) ==
  /\ rout' = IF VersionsOf(n) = {} THEN Absent ELSE [st |-> "ok", vs |-> VersionsOf(n)]
  /\ UNCHANGED store

Ls == rout' = [st |-> "ok", names |-> DOMAIN store] /\ UNCHANGED store

\* a write that fails: nothing is stored, or (only if the process stopped or the
\* storage failed after everything was stored) the complete write took effect
FailedPut(n, v, t, mayApply) ==
  /\ rout' = [st |-> "failed"]
  /\ \/ UNCHANGED store
     \/ mayApply /\ store' = Written(n, IF v = "" THEN NextVersion(n) ELSE v, t)

AscendingVersions(s) == \A i \in 1..(Len(s) - 1) : DecLt(s[i], s[i + 1])

\* ascending order of names by code points
RECURSIVE CpLess(_, _)
CpLess(x, y) ==
  IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE
  ELSE IF Head(x) # Head(y) THEN Head(x) < Head(y) ELSE CpLess(Tail(x), Tail(y))
AscendingNames(s) == \A i \in 1..(Len(s) - 1) : CpLess(s[i].cp, s[i + 1].cp)
=============================================================================
