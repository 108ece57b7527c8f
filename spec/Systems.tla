------------------------------ MODULE Systems ------------------------------
(* Which system, connection settings and object a URL stands for, for ls and *)
(* for schema, alone or completed from the configuration.                    *)
EXTENDS Urls

SystemOf(scheme) ==
  CASE scheme \in {"mysql", "postgresql", "snowflake", "bigquery", "sqlite"} -> scheme
    [] scheme \in {"http+csr", "https+csr"} -> "csr"
    [] scheme = "thrift+hms" -> "hive"
    [] scheme \in {"file", ""} -> "file"
    [] OTHER -> "none"

Comps(p) == SelectSeq(Split(p, "/"), LAMBDA x : x # "")
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
WithSuffix(s) == IF EndsWith(s, "-key") \/ EndsWith(s, "-value") THEN s ELSE s \o "-value"

\* how many components an object has in each system
Levels(sys) == CASE sys \in {"postgresql", "snowflake", "bigquery"} -> 3 [] sys \in {"mysql", "hive"} -> 2 [] OTHER -> 1

\* "go": the URL names something; "refuse": it cannot; "open": not specified
Verdict(u, op) ==
  LET sys == SystemOf(u.scheme) n == Len(Comps(u.path)) IN
  CASE sys = "none" -> "refuse"
    [] sys \in {"postgresql", "snowflake", "bigquery"} -> IF op = "ls" THEN (IF n <= 2 THEN "go" ELSE "refuse") ELSE IF n = 3 THEN "go" ELSE IF n < 3 THEN "refuse" ELSE "open"
    [] sys \in {"mysql", "hive"} -> IF op = "ls" THEN (IF n <= 1 THEN "go" ELSE "open") ELSE IF n = 2 THEN "go" ELSE IF n < 2 THEN "refuse" ELSE "open"
    [] sys = "csr" -> IF op = "ls" THEN "go" ELSE IF n >= 1 THEN "go" ELSE "refuse"
    [] sys = "sqlite" -> IF op = "ls" THEN (IF n >= 1 THEN "go" ELSE "open") ELSE IF n >= 2 THEN "go" ELSE "refuse"
    [] OTHER -> "go"

\* the object's names within the system
Object(u, op) ==
  LET sys == SystemOf(u.scheme) c == Comps(u.path) IN
  CASE sys = "csr" -> IF op = "ls" THEN <<>> ELSE <<WithSuffix(Last(c))>>
    [] sys = "sqlite" -> IF op = "ls" THEN <<Drop(RStrip(u.path, "/"), 1)>>
                         ELSE <<Drop(SubSeq(u.path, 1, LastIndexOf(u.path, "/") - 1), 1), Drop(u.path, LastIndexOf(u.path, "/"))>>
    [] sys = "file" -> <<RStrip(u.path, "/")>>
    [] OTHER -> c

\* the part of the URL that is opened (and looked up in the configuration)
OpenUrl(u, op) ==
  LET sys == SystemOf(u.scheme) c == Comps(u.path) IN
  CASE sys \in {"mysql", "postgresql", "snowflake"} -> [u EXCEPT !.path = IF c = <<>> THEN "" ELSE "/" \o c[1]]
    [] sys = "csr" -> [u EXCEPT !.path = IF op = "ls" THEN u.path ELSE "/" \o JoinStr(Front(c), "/")]
    [] sys = "hive" -> [u EXCEPT !.path = "", !.query = "", !.frag = ""]
    [] sys = "bigquery" -> [u EXCEPT !.path = "", !.query = "", !.frag = "", !.host = "", !.port = ""]
    [] sys = "sqlite" -> [u EXCEPT !.path = IF op = "ls" THEN u.path ELSE "/" \o Object(u, op)[1]]
    [] sys = "file" -> [u EXCEPT !.path = "", !.query = "", !.frag = ""]
    [] OTHER -> u

Bare(host) == IF host # "" /\ Ch(host, 1) = "[" THEN SubSeq(host, 2, Len(host) - 1) ELSE host
Common(sys) ==     \* the parameters that are enumerated
  CASE sys = "mysql" -> {"charset", "collation", "time_zone", "connection_timeout", "ssl_ca"}
    [] sys = "postgresql" -> {"sslmode", "application_name", "connect_timeout", "client_encoding"}
    [] sys = "snowflake" -> {"warehouse", "role", "authenticator"}
    [] sys = "csr" -> {"ssl.ca.location", "ssl.key.location", "ssl.certificate.location"}
    [] sys = "sqlite" -> {"timeout"}
    [] OTHER -> {}
Supported(sys) == Common(sys) \cup
  CASE sys = "postgresql" -> {"channel_binding", "fallback_application_name", "gssencmode", "gsslib", "hostaddr", "keepalives", "keepalives_count", "keepalives_idle", "keepalives_interval", "krbsrvname", "options", "passfile", "replication", "requirepeer", "service", "ssl_max_protocol_version", "ssl_min_protocol_version", "sslcert", "sslcompression", "sslcrl", "sslcrldir", "sslkey", "sslpassword", "sslrootcert", "sslsni", "target_session_attrs", "tcp_user_timeout"}
    [] sys = "sqlite" -> {"detect_types", "isolation_level", "check_same_thread", "cached_statements"}
    [] OTHER -> {}
\* sqlite3's parameters are not texts: a flag is on unless it is 0 or false
ParamText(k, v) == IF k = "check_same_thread" THEN (IF Lower(v) \in {"0", "false"} THEN "off" ELSE "on") ELSE v
DefaultPort(sys) == CASE sys = "mysql" -> "3306" [] sys = "postgresql" -> "5432" [] sys = "hive" -> "9083" [] sys = "snowflake" -> "443" [] OTHER -> ""
DbKey(sys) == CASE sys = "postgresql" -> "dbname" [] OTHER -> "database"
HostKey(sys) == IF sys = "snowflake" THEN "account" ELSE "host"

\* are the settings s (a map of texts) those of opening the URL w in system sys?
SettingsBad(sys, w, s) ==
  LET q == Query(w.query)
      c == Comps(w.path)
      If2(b, x) == IF b THEN {x} ELSE {}
      want(k, v, what) == If2(Get(s, k, "") # v, "the connection has another " \o what \o " than the URL")
  IN
  CASE sys \in {"mysql", "postgresql", "snowflake"} ->
         If2(Lower(Get(s, HostKey(sys), "")) # Lower(Bare(w.host)), "the connection has another host than the URL")
         \cup If2(Get(s, "port", DefaultPort(sys)) # (IF w.port = "" THEN DefaultPort(sys) ELSE w.port), "the connection has another port than the URL")
         \cup want("user", Decode(w.user), "user") \cup want("password", Decode(w.pass), "password")
         \cup want(DbKey(sys), IF c = <<>> THEN "" ELSE c[1], "database")
         \cup UNION {want(k, q[k][1], "parameter " \o k) : k \in Supported(sys) \cap DOMAIN q}
    [] sys = "hive" ->
         If2(Lower(Get(s, "host", "")) # Lower(Bare(w.host)), "the connection has another host than the URL")
         \cup If2(Get(s, "port", "9083") # (IF w.port = "" THEN "9083" ELSE w.port), "the connection has another port than the URL")
    [] sys = "csr" ->
         IF ~IsUrl(Get(s, "url", "")) THEN {"the registry's URL is no URL"}
         ELSE LET r == ParseUrl(s["url"]) IN
              If2(r.scheme \o "+csr" # w.scheme, "the connection has another scheme than the URL")
              \cup If2(Lower(r.host) # Lower(w.host) \/ r.port # w.port, "the connection has another host or port than the URL")
              \cup If2(Comps(r.path) # Comps(w.path), "the connection has another path than the URL")
              \cup If2(Decode(r.user) # Decode(w.user) \/ Decode(r.pass) # Decode(w.pass), "the connection has another user or password than the URL")
              \cup If2(r.query # "" \/ r.frag # "", "the registry's URL has a query or fragment")
              \cup UNION {want(k, q[k][1], "parameter " \o k) : k \in Supported(sys) \cap DOMAIN q}
    [] sys = "sqlite" -> UNION {want(k, ParamText(k, q[k][1]), "parameter " \o k) : k \in Supported(sys) \cap DOMAIN q}
    [] OTHER -> {}

\* what a system with the objects objs (sequences of names ending with the name of the only column) answers
Children(objs, o) == {x[Len(o) + 1] : x \in {y \in Range(objs) : Len(y) > Len(o) + 1 /\ SubSeq(y, 1, Len(o)) = o}}
Columns(objs, o) == {x[Len(x)] : x \in {y \in Range(objs) : SubSeq(y, 1, Len(y) - 1) = o}}
=============================================================================
