--------------------------- MODULE Trace_Aliases ---------------------------
(* Recorded histories of loading, resolving and modifying, as behaviours of  *)
(* Aliases.  After every operation the complete observable state is compared.*)
EXTENDS Aliases, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k        \* history, operation within it
tvars == <<descs, hs, out, l, k>>

If(c, s) == IF c THEN {s} ELSE {}
E == Trace[l].events[k]

Act ==
  CASE E.op = "load" -> Load(E.t)
    [] E.op = "resolve" -> Resolve(E.h)
    [] E.op = "set" -> SetAttr(E.h, E.path, E.key, E.val)
    [] E.op = "extend" -> Extend(E.h, E.path, E.key, E.val)
    [] E.op = "drop" -> DropChild(E.h, E.path)

\* what the code showed after the operation against the new state
Mismatch ==
  If(E.st # out'.st, E.op \o ": outcome " \o E.st \o ", specified " \o out'.st)
  \cup If(E.op = "resolve" /\ E.st = "ok" /\ out'.st = "ok" /\ ~TEq(E.r, out'.t), "resolved to a different type")
  \cup If(Len(E.descs) # Len(descs') \/ \E i \in 1..Len(descs') : ~TEq(E.descs[i], descs'[i]),
          E.op \o " changed a loaded type")
  \cup If(Len(E.res) # Len(hs')
          \/ \E h \in 1..Len(hs') : hs'[h].res # <<>> /\ (E.res[h] = <<>> \/ ~TEq(E.res[h][1], hs'[h].res[1])),
          E.op \o " changed another resolved type")
  \cup If(\E n \in DOMAIN E.builtin : ~TEq(E.builtin[n], Builtin[n]), E.op \o " changed a built-in alias")
  \cup If(~(BuiltinNames \subseteq DOMAIN E.builtin) /\ DOMAIN E.builtin # {}, "a built-in alias is missing")

Last == k = Len(Trace[l].events)
TraceInit == AInit /\ l = 1 /\ k = 1
StepOn == IF Last THEN l' = l + 1 /\ k' = 0 ELSE l' = l /\ k' = k + 1
\* a new history starts from the initial state
Fresh == descs' = <<>> /\ hs' = <<>> /\ out' = Error
TraceNext ==
  IF l > Len(Trace) THEN UNCHANGED tvars
  ELSE IF k = 0 THEN Fresh /\ k' = 1 /\ l' = l
  ELSE /\ Act
       /\ LET b == Mismatch IN
          IF b = {} THEN StepOn
          ELSE PrintT(ToJson([i |-> l, bad |-> b])) /\ l' = l + 1 /\ k' = 0
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
