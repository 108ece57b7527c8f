------------------------------ MODULE Histories ------------------------------
(* Conversions as functions: a conversion adds one object (document or type)  *)
(* and changes none, and with a fresh converter the same conversion of the    *)
(* same content always has the same outcome.                                  *)
(* val: object -> content; res: set of [f, in, out] seen with fresh           *)
(* converters, out being a content or "error".                                *)
EXTENDS Base

Outcomes(res, f, in) == {x.out : x \in {y \in res : y.f = f /\ y.in = in}}
\* e: [f, in, out, fresh, made, now]: conversion f of object e.in made object e.out ("" if it failed) with content e.made; e.now: all contents afterwards
Same(val, now) == \A o \in DOMAIN val : o \in DOMAIN now /\ now[o] = val[o]
BadStep(val, res, e) ==
     (IF Same(val, e.now) THEN {} ELSE {e.f \o " changed an input or an earlier result"})
  \cup (IF e.fresh /\ Outcomes(res, e.f, val[e.in]) \ {e.made} # {} THEN {e.f \o ": another outcome for the same input"} ELSE {})
NextVal(val, e) == LET v == [o \in DOMAIN val |-> IF o \in DOMAIN e.now THEN e.now[o] ELSE val[o]]
                   IN IF e.out = "" THEN v ELSE [o \in DOMAIN v \cup {e.out} |-> IF o = e.out THEN e.made ELSE v[o]]
NextRes(val, res, e) == IF e.fresh THEN res \cup {[f |-> e.f, in |-> val[e.in], out |-> e.made]} ELSE res
=============================================================================
