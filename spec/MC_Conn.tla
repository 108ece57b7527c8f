------------------------------- MODULE MC_Conn -------------------------------
(* Requests that follow the rules, interleaved in every way and failing at    *)
(* any step: the monitor never objects, and nothing stays open.  The order of *)
(* steps and the failing steps are replayed into the implementation.          *)
EXTENDS Conn, Json, IOUtils
CONSTANTS Requests, MaxUses
VARIABLES s, at, order, fails
\* at: per request "idle" | number of uses so far | "closing" | "done"
vars == <<s, at, order, fails>>
Uses == 0..MaxUses
E(v, q, ok) == [ev |-> v, q |-> q, c |-> q, ok |-> ok]
Init == s = Fresh /\ at = [q \in Requests |-> [p |-> "idle", n |-> 0]] /\ order = <<>> /\ fails = [q \in Requests |-> 0]
Did(q, ev, p, n) == s' = Step(s, E(ev, q, FALSE), {}) /\ at' = [at EXCEPT ![q] = [p |-> p, n |-> n]] /\ order' = Append(order, q)
Count(q) == Len(SelectSeq(order, LAMBDA x : x = q)) + 1
Fail(q, ev, p) == fails[q] = 0 /\ fails' = [fails EXCEPT ![q] = Count(q)] /\ Did(q, ev, p, 0)
Next == \E q \in Requests :
  \/ at[q].p = "idle" /\ ((Did(q, "connect", "open", 0) /\ UNCHANGED fails) \/ Fail(q, "fail connect", "over"))
  \/ at[q].p = "open" /\ at[q].n < MaxUses /\ ((Did(q, "use", "open", at[q].n + 1) /\ UNCHANGED fails) \/ Fail(q, "fail use", "closing"))
  \/ at[q].p \in {"open", "closing"} /\ (at[q].p = "open" => at[q].n = MaxUses) /\ ((Did(q, "close", "over", 0) /\ UNCHANGED fails) \/ Fail(q, "fail close", "over"))
  \/ at[q].p = "over" /\ s' = Step(s, E("end", q, q \notin s.failed), {}) /\ at' = [at EXCEPT ![q].p = "done"] /\ UNCHANGED <<order, fails>>
Spec == Init /\ [][Next]_vars
Done == \A q \in Requests : at[q].p = "done"
Sound == s.bad = {} /\ (Done => s.open = {} /\ s.failed = {q \in Requests : fails[q] # 0})
Owned == \A c \in s.open : at[s.owner[c]].p \in {"open", "closing"}
Emit == Done => PrintT(ToJson([order |-> order, fails |-> fails]))
=============================================================================
