------------------------------ MODULE MC_Systems ------------------------------
(* Every URL of every scheme over small components, for ls and schema.       *)
EXTENDS Systems, Json, IOUtils
CONSTANTS Full
VARIABLES u, op
vars == <<u, op>>
Creds == {<<FALSE, "", "">>, <<TRUE, "u", "p">>, <<TRUE, "u%40x", "p%3A%2F%25">>} \cup (IF Full THEN {<<TRUE, "u", "">>, <<TRUE, "", "p">>} ELSE {})
Names == {"a", "b%20c"}
Paths(n) == IF n = 0 THEN {<<>>} ELSE [1..n -> Names]
PathText(c) == IF c = <<>> THEN "" ELSE "/" \o JoinStr(c, "/")
Qs(s) == {""} \cup {k \o "=v1&foo=1" : k \in Common(SystemOf(s)) \ {"timeout"}} \cup (IF s = "thrift+hms" THEN {"include_stats=true"} ELSE {})
         \cup {"host=evil&hostname=evil&scheme=file&path=x&paths=x&netloc=evil&url=x&params=x&fragment=x&dialect=x&driver=x"}
Schemes == {"mysql", "postgresql", "snowflake", "http+csr", "https+csr", "thrift+hms", "bigquery", "oracle", "http"}
Hosts(s) == IF s = "bigquery" THEN {""} ELSE IF Full THEN {"h", "Host.example", "[::1]"} ELSE {"h", "[::1]"}
Ports(s) == IF s = "bigquery" THEN {""} ELSE {"", "77"}
CredsOf(s) == IF s \in {"bigquery", "thrift+hms"} THEN {<<FALSE, "", "">>} ELSE Creds
Init == /\ op \in {"ls", "schema"}
        /\ \E s \in Schemes : \E n \in 0..3 : \E p \in Paths(n) : \E cr \in CredsOf(s) : \E h \in Hosts(s) : \E po \in Ports(s) : \E q \in Qs(s) :
             u = [scheme |-> s, hasui |-> cr[1], user |-> cr[2], pass |-> cr[3], host |-> h, port |-> po, path |-> PathText(p), query |-> q, frag |-> ""]
Spec == Init /\ [][UNCHANGED vars]_vars

sys == SystemOf(u.scheme)
W == OpenUrl(u, op)
\* settings that are right for the URL
Ideal ==
  LET q == Query(W.query) c == Comps(W.path)
      base == CASE sys \in {"mysql", "postgresql", "snowflake"} ->
                     (HostKey(sys) :> Bare(W.host)) @@ ("port" :> (IF W.port = "" THEN DefaultPort(sys) ELSE W.port)) @@ ("user" :> Decode(W.user)) @@ ("password" :> Decode(W.pass))
                     @@ (DbKey(sys) :> (IF c = <<>> THEN "" ELSE c[1]))
                [] sys = "hive" -> ("host" :> Bare(W.host)) @@ ("port" :> (IF W.port = "" THEN "9083" ELSE W.port))
                [] sys = "csr" -> ("url" :> UrlText([W EXCEPT !.scheme = SubSeq(@, 1, Len(@) - 4), !.query = ""]))
                [] OTHER -> [x \in {} |-> ""]
  IN base @@ [k \in Supported(sys) \cap DOMAIN q |-> q[k][1]]
Sound == Verdict(u, op) = "go" =>
  /\ SettingsBad(sys, W, Ideal) = {}
  /\ \A k \in DOMAIN Ideal : SettingsBad(sys, W, [Ideal EXCEPT ![k] = "evil"]) # {}
  \* the opened URL stands for the same connection
  /\ Verdict(W, "ls") = "go" => SettingsBad(sys, OpenUrl(W, "ls"), Ideal) = {}
  \* query parameters replace no component
  /\ Object(u, op) = Object([u EXCEPT !.query = ""], op) /\ OpenUrl(u, op).host = OpenUrl([u EXCEPT !.query = ""], op).host
Emit == Verdict(u, op) # "open" => PrintT(ToJson([u |-> UrlText(u), op |-> op]))
=============================================================================
