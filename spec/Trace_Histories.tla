--------------------------- MODULE Trace_Histories ---------------------------
(* e.runs: recorded histories over the same inputs, each in a process of its  *)
(* own; outcomes of fresh converters agree within and across them.            *)
EXTENDS Histories, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
RECURSIVE Steps1(_, _, _, _, _)
Steps1(val, res, bad, es, i) ==
  IF i > Len(es) THEN [res |-> res, bad |-> bad]
  ELSE Steps1(NextVal(val, es[i]), NextRes(val, res, es[i]), bad \cup BadStep(val, res, es[i]), es, i + 1)
RECURSIVE Runs(_, _, _, _)
Runs(e, res, bad, k) ==
  IF k > Len(e.runs) THEN bad
  ELSE LET r == Steps1(e.inputs, res, bad, e.runs[k], 1) IN Runs(e, r.res, r.bad, k + 1)
Bad(e) == Runs(e, {}, {}, 1)
TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET b == Bad(Trace[l]) IN b # {} => PrintT(ToJson([i |-> l, bad |-> b]))
  /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
