----------------------------- MODULE MC_Faults -----------------------------
(* The registry with writes that fail, in every order.                        *)
EXTENDS Registry
CONSTANT MaxOps
VARIABLES n, last
vars == <<store, rout, n, last>>
Names == {"n1", "n2"}
Vers == {"", "1", "2"}
Types == {TBool, TNull}
Init == RInit /\ n = 0 /\ last = <<"", "", TNull, "init">>
Next ==
  /\ n < MaxOps /\ n' = n + 1
  /\ \E nm \in Names, v \in Vers, t \in Types :
       \/ Put(nm, v, t) /\ last' = <<nm, v, t, "ok">>
       \/ \E m \in BOOLEAN : FailedPut(nm, v, t, m) /\ last' = <<nm, v, t, "failed">>
Spec == Init /\ [][Next]_vars
\* a failed write changes nothing, or what a complete write would have changed
Intact == [][last'[4] = "failed" =>
     \A nm \in DOMAIN store : \A v \in DOMAIN store[nm] :
        store'[nm][v] = store[nm][v] \/ (nm = last'[1] /\ v = last'[2] /\ store'[nm][v] = last'[3])]_vars
\* repeating the write makes it readable
Retry == [][(last[4] = "failed" /\ last'[4] = "ok" /\ SubSeq(last, 1, 3) = SubSeq(last', 1, 3)) =>
     store'[last'[1]][rout'.v] = last'[3]]_vars
=============================================================================
