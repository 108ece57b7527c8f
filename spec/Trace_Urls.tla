------------------------------ MODULE Trace_Urls ------------------------------
(* Recorded settings: e.urls as configured; either e.listed and what each    *)
(* listed URL leads to (e.back: [st, text]), or one request e.req with its    *)
(* answer in strict mode (e.s) and otherwise (e.n).                          *)
EXTENDS Urls, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(c, s) == IF c THEN {s} ELSE {}
BadList(e) ==
  IF e.st # "ok" THEN {"the URLs cannot be configured and listed (" \o e.st \o ")"}
  ELSE IF Len(e.listed) # Len(e.urls) THEN {"there is not one listed URL per configured URL"}
  ELSE LET cs == [i \in 1..Len(e.urls) |-> ParseUrl(e.urls[i])] IN
       UNION {LET c == cs[i] w == " of URL " \o ToString(i) IN
              IF ~IsUrl(e.listed[i]) THEN {"not a URL is listed instead" \o w}
              ELSE LET u == ParseUrl(e.listed[i]) IN
                   If(u.hasui, "there is a user or password in the listed form" \o w)
                   \cup If(Lower(u.scheme) # Lower(c.scheme) \/ Lower(u.host) # Lower(c.host) \/ u.port # c.port, "the listed form has another scheme, host or port than that" \o w)
                   \cup If(RStrip(u.path, "/") # RStrip(c.path, "/"), "the listed form has another path than that" \o w)
                   \cup If(u.query # c.query, "the listed form has another query than that" \o w)
                   \cup If(u.frag # c.frag, "the listed form has another fragment than that" \o w)
                   \cup If(~AnswerOk(cs, u, TRUE, e.back[i].st, e.back[i].text, e.listed[i]), "the listed form does not lead back to the configured form" \o w)
              : i \in 1..Len(e.urls)}
       \cup If(e.http # e.listed, "the gateway lists other URLs than the settings")
BadAsk(e) ==
  LET cs == [i \in 1..Len(e.urls) |-> ParseUrl(e.urls[i])] r == ParseUrl(e.req)
      cov == \E i \in 1..Len(cs) : Covers(cs[i], r)
      w(m) == IF cov THEN "a covered request is not completed as it should be (" \o m \o ")" ELSE "a request that is not covered is not " \o (IF m = "strict" THEN "refused" ELSE "passed on unchanged")
  IN If(~AnswerOk(cs, r, TRUE, e.s.st, e.s.text, e.req), w("strict")) \cup If(~AnswerOk(cs, r, FALSE, e.n.st, e.n.text, e.req), w("not strict"))
Bad(e) == IF e.kind = "list" THEN BadList(e) ELSE BadAsk(e)
TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ LET b == Bad(Trace[l]) IN b # {} => PrintT(ToJson([i |-> l, bad |-> b]))
  /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
