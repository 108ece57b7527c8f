---------------------------- MODULE RegistryObs ----------------------------
(* Comparing recorded answers of a registry storage with the specification.   *)
EXTENDS Registry

If(c, s) == IF c THEN {s} ELSE {}

RAct(e) ==
  CASE e.op = "put" -> Put(e.n, e.v, e.t)
    [] e.op = "get" -> Fetch(e.n, e.v)
    [] e.op = "versions" -> Versions(e.n)
    [] e.op = "latest" -> Versions(e.n)
    [] e.op = "ls" -> Ls
    [] e.op = "failput" -> FailedPut(e.n, e.v, e.t, FALSE)
    [] e.op = "open" -> UNCHANGED store /\ rout' = [st |-> "ok"]

MatchPut(e) == If(rout'.st = "ok" /\ e.st # "ok", "write fails") \cup If(e.st = "ok" /\ e.rv # rout'.v, "stored under another version than specified")
MatchGet(e) ==
  IF rout'.st = "absent" THEN If(e.st # "absent", "an absent entry is reported as " \o e.st)
  ELSE If(e.st # "ok", "a stored version is reported as " \o e.st)
       \cup If(e.st = "ok" /\ e.rv # rout'.v, "another version is returned")
       \cup If(e.st = "ok" /\ e.rv = rout'.v /\ ~(WellShaped(e.r) /\ EquivT(e.r, rout'.t)), "another type is returned")
MatchVersions(e) ==
  IF rout'.st = "absent" THEN If(e.st # "absent", "versions of an absent name are reported as " \o e.st)
  ELSE If(e.st # "ok", "versions are reported as " \o e.st)
       \cup If(e.st = "ok" /\ ~(Range(e.vs) = rout'.vs /\ AscendingVersions(e.vs)), "the version list is wrong")
MatchLatest(e) ==
  IF rout'.st = "absent" THEN If(e.st # "absent", "latest of an absent name is reported as " \o e.st)
  ELSE If(e.st # "ok" \/ e.rv # MaxVersion(rout'.vs), "latest is wrong")
\* after a failed first write a name may be listed without any version
MatchLs(e, failed) ==
  If(e.st # "ok", "listing is reported as " \o e.st)
  \cup If(e.st = "ok" /\ ~(DOMAIN store \subseteq {x.s : x \in Range(e.names)}), "a name is missing from the list")
  \cup If(e.st = "ok" /\ ~({x.s : x \in Range(e.names)} \subseteq DOMAIN store \cup Range(failed)),
          "an unknown name is listed")
  \cup If(e.st = "ok" /\ ~AscendingNames(e.names), "the name list is not ascending or has duplicates")
RMatch(e, failed) ==
  (CASE e.op = "put" -> MatchPut(e)
     [] e.op = "get" -> MatchGet(e)
     [] e.op = "versions" -> MatchVersions(e)
     [] e.op = "latest" -> MatchLatest(e)
     [] e.op = "ls" -> MatchLs(e, failed)
     [] e.op = "failput" -> If(e.st # "err", "an unrepresentable type is reported as " \o e.st)
     [] OTHER -> {})
  \cup If(e.outside # <<>>, "touches something outside the registry")
  \cup If(e.changed # <<>>, "changes something outside the registry")

=============================================================================
