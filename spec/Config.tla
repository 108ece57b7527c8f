------------------------------- MODULE Config -------------------------------
(* Where the configuration comes from, and what it decides: the folder that   *)
(* holds the registry's schemas, the options of its file system, and the      *)
(* URLs.  A configuration c: c.env, c.dot (the .env file beside the package)  *)
(* and c.sec (the files <<folder, name, value>> of secrets) give values to    *)
(* names; c.cwd and c.user are the working folder and the user's home.        *)
(* Paths are written with %XX for "%" and for what is not printable ASCII.    *)
EXTENDS Urls

Given(ps, k) == \E i \in 1..Len(ps) : ps[i][1] = k
ValueOf(ps, k) == ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2]

\* the path of a URL, written like other paths
RECURSIVE Canon(_)
Canon(s) ==
  IF s = "" THEN ""
  ELSE IF Ch(s, 1) = "%" /\ Len(s) >= 3 /\ IsHex(Ch(s, 2)) /\ IsHex(Ch(s, 3))
       THEN LET n == HexVal(Ch(s, 2)) * 16 + HexVal(Ch(s, 3)) IN
            (IF n >= 32 /\ n <= 126 /\ n # 37 THEN Ch(AsciiStr, n - 31) ELSE Upper(SubSeq(s, 1, 3))) \o Canon(Drop(s, 3))
       ELSE Ch(s, 1) \o Canon(Drop(s, 1))

PathOf(p) == Parts(p)
From(base, p) == IF p # "" /\ Ch(p, 1) = "/" THEN PathOf(p) ELSE PathOf(base) \o PathOf(p)

(* the environment goes first, then .env; an empty variable hides the one in .env *)
InEnv(c, k) == Given(c.env, k) \/ Given(c.dot, k)
EnvValue(c, k) == IF Given(c.env, k) THEN ValueOf(c.env, k) ELSE ValueOf(c.dot, k)
Place(c, k) == IF InEnv(c, k) THEN EnvValue(c, k) ELSE ""

Home(c) == IF Place(c, "HOME") = "" THEN PathOf(c.user) \o <<".recap">> ELSE From(c.cwd, Place(c, "HOME"))
Secrets(c) == IF Place(c, "SECRETS") = "" THEN <<>>
              ELSE LET mine == SelectSeq(c.sec, LAMBDA x : PathOf(x[1]) = From(c.cwd, Place(c, "SECRETS"))) IN [i \in 1..Len(mine) |-> <<mine[i][2], mine[i][3]>>]
(* settings may also come from the files of secrets *)
Set(c, k) == InEnv(c, k) \/ Given(Secrets(c), k)
Setting(c, k) == IF InEnv(c, k) THEN EnvValue(c, k) ELSE ValueOf(Secrets(c), k)

StorageUrl(c) == Setting(c, "URL")
OnDisk(c) == ~Set(c, "URL") \/ Lower(ParseUrl(StorageUrl(c)).scheme) = "file"
Root(c) == IF Set(c, "URL") THEN PathOf(Canon(ParseUrl(StorageUrl(c)).path)) ELSE Home(c) \o <<"schemas">>
ConfiguredUrls(c) == IF Set(c, "URLS") THEN Setting(c, "URLS") ELSE <<>>

(* options: a value of their own goes before a value in an object, sources as above *)
Options(c) ==
  LET own == [i \in 1..Len(c.env) |-> c.env[i]] \o c.dot
      single == SelectSeq(own, LAMBDA x : StartsWith(x[1], "ARGS__"))
      singles == [i \in 1..Len(single) |-> <<Drop(single[i][1], 6), single[i][2]>>]
      obj == IF InEnv(c, "ARGS") THEN EnvValue(c, "ARGS") ELSE <<>>
      sobj == IF Given(Secrets(c), "ARGS") THEN ValueOf(Secrets(c), "ARGS") ELSE <<>>
      all == singles \o obj \o sobj
  IN [k \in {all[i][1] : i \in 1..Len(all)} |-> ValueOf(all, k)]

(* what is stored: the sequence of <<root, name, content>>, the latest last *)
Names(disk, c) == {disk[i][2] : i \in {j \in 1..Len(disk) : disk[j][1] = Root(c)}}
Content(disk, c, n) == LET of == SelectSeq(disk, LAMBDA x : x[1] = Root(c) /\ x[2] = n) IN of[Len(of)][3]
Stored(disk, c, n, x) == Append(disk, <<Root(c), n, x>>)
=============================================================================
