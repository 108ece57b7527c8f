---------------------------- MODULE MC_Registry ----------------------------
EXTENDS Registry, Json
CONSTANTS MaxOps
VARIABLE hist
vars == <<store, rout, hist>>
Names == {"n1", "n2"}
Vers == {"", "1", "2", "10", "99"}
Types == {TBool, TInt("24", FALSE)}
H(r) == hist' = Append(hist, r)
Init == RInit /\ hist = <<>>
Writes == Cardinality({i \in 1..Len(hist) : hist[i].op = "put"})
Next ==
  /\ Len(hist) < MaxOps
  /\ \/ \E n \in Names, v \in Vers, t \in Types : Put(n, v, t) /\ H([op |-> "put", n |-> n, v |-> v, t |-> t])
     \/ Len(hist) > 0 /\ hist[Len(hist)].op = "put" /\ \E n \in Names, v \in {"", "1", "3"} : Fetch(n, v) /\ H([op |-> "get", n |-> n, v |-> v])
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* writing a name leaves every other name alone, and of the same name only the
\* written version changes
Frame == [][\A n \in DOMAIN store : \A v \in DOMAIN store[n] :
             (store'[n][v] # store[n][v]) => (hist'[Len(hist')].op = "put" /\ hist'[Len(hist')].n = n /\ rout'.v = v)]_vars
NothingLost == [][DOMAIN store \subseteq DOMAIN store' /\ \A n \in DOMAIN store : DOMAIN store[n] \subseteq DOMAIN store'[n]]_vars
\* an unversioned write gets a version above all others
Fresh == [][(hist' # hist /\ hist'[Len(hist')].op = "put" /\ hist'[Len(hist')].v = "") =>
            LET n == hist'[Len(hist')].n IN
            /\ rout'.v \notin VersionsOf(n)
            /\ \A v \in VersionsOf(n) : DecLt(v, rout'.v)
            /\ store'[n][rout'.v] = hist'[Len(hist')].t]_vars
ReadsLast == (rout.st = "ok" /\ hist # <<>> /\ hist[Len(hist)].op = "get") =>
  LET e == hist[Len(hist)] IN rout.t = store[e.n][rout.v] /\ (e.v # "" => rout.v = e.v)
Emit == Len(hist) = MaxOps => PrintT(ToJson([hist |-> hist]))
=============================================================================
