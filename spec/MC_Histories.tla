----------------------------- MODULE MC_Histories -----------------------------
(* All short histories of conversions over shared inputs.  Conversions that   *)
(* are functions are never objected to; a history in which one of them        *)
(* tampered with an object, or gave a stale answer, always is.                *)
EXTENDS Histories, Json
CONSTANTS Formats, Steps, Tampering
VARIABLES objs, val, res, bad, hist, tampered
\* objs: sequence of "type" | "source" | format; the contents are terms
vars == <<objs, val, res, bad, hist, tampered>>
Name(i) == "o" \o ToString(i)
Init == \E a, b \in {"type", "source"} :
  /\ objs = <<a, b>> /\ val = (Name(1) :> "x" @@ Name(2) :> "y")
  /\ res = {} /\ bad = {} /\ hist = <<>> /\ tampered = FALSE
F(k, fmt) == IF k = "type" THEN "write " \o fmt ELSE "read " \o k
Do(i, fmt, fresh) ==
  LET k == objs[i]
      f == F(k, fmt)
      n == Name(Len(objs) + 1)
      made == f \o "(" \o val[Name(i)] \o ")"
      E(out, now) == [f |-> f, in |-> Name(i), out |-> n, fresh |-> fresh, made |-> out, now |-> now]
      Step(e, t) == /\ bad' = bad \cup BadStep(val, res, e)
                    /\ val' = NextVal(val, e) /\ res' = NextRes(val, res, e)
                    /\ objs' = Append(objs, IF k = "type" THEN fmt ELSE "type")
                    /\ hist' = Append(hist, [i |-> i, fmt |-> fmt, fresh |-> fresh])
                    /\ tampered' = (tampered \/ t)
  IN \/ Step(E(made, val), FALSE)
     \/ Tampering /\ \E o \in DOMAIN val : Step(E(made, [val EXCEPT ![o] = @ \o "!"]), TRUE)
     \/ Tampering /\ fresh /\ Outcomes(res, f, val[Name(i)]) # {} /\ Step(E(made \o "!", val), TRUE)
Next == /\ Len(hist) < Steps
        /\ \E i \in 1..Len(objs), fresh \in BOOLEAN :
             \E fmt \in IF objs[i] = "type" THEN Formats ELSE {""} : Do(i, fmt, fresh)
Spec == Init /\ [][Next]_vars
Sound == ~tampered => bad = {}
Complete == tampered => bad # {}
Functional == ~tampered => \A x, y \in res : x.f = y.f /\ x.in = y.in => x.out = y.out
Emit == (~Tampering /\ Len(hist) = Steps) => PrintT(ToJson([start |-> <<objs[1], objs[2]>>, h |-> hist]))
=============================================================================
