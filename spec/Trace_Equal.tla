----------------------------- MODULE Trace_Equal -----------------------------
(* Recorded comparisons of two real types, and of one with something else.     *)
(* Values of attributes compare as Python's do: true and 1 are one value.      *)
EXTENDS TypeValues, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(c, s) == IF c THEN {s} ELSE {}
RECURSIVE Py(_)
Py(x) == CASE x.t = "bool" -> JInt(IF x.v = "true" THEN "1" ELSE "0")
           [] x.t = "arr" -> [x EXCEPT !.c = [i \in 1..Len(x.c) |-> Py(x.c[i])]]
           [] x.t = "obj" -> [x EXCEPT !.m = [k \in DOMAIN x.m |-> Py(x.m[k])]]
           [] OTHER -> x
RECURSIVE PyT(_)
PyT(x) == [k |-> x.k, a |-> [n \in DOMAIN x.a |-> Py(x.a[n])], c |-> [i \in 1..Len(x.c) |-> PyT(x.c[i])]]
Str(b) == IF b THEN "true" ELSE "false"
Bad(e) ==
  LET same == TEq(PyT(e.x), PyT(e.y)) IN
  If(e.eq # Str(same), IF same THEN "types with the same content are not equal" ELSE "types with different contents are equal")
  \cup If(e.qe # Str(same), "equality depends on which type comes first, or is wrong both ways")
  \cup If(e.ne # Str(~same), "!= is not the opposite of ==")
  \cup If(e.found # Str(same), "a type is not found in a list exactly if it is in it")
  \cup If(\E i \in 1..Len(e.copies) : e.copies[i] # "true", "a copy of a type is not equal to it")
  \cup If(\E i \in 1..Len(e.others) : e.others[i] # "false", "a type is equal to something that is not a type")
  \cup If(~TEq(e.x, e.x2) \/ ~TEq(e.y, e.y2), "comparing changes a type")
TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET b == Bad(Trace[l]) IN b # {} => PrintT(ToJson([i |-> l, bad |-> b]))
  /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
