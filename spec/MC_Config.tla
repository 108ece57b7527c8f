------------------------------ MODULE MC_Config ------------------------------
(* Every combination of sources over a few values, and every run after a run: *)
(* the sources' order decides, spellings don't matter, and a run finds what    *)
(* an earlier run stored exactly if both have the same root.                   *)
EXTENDS Config, Json
CONSTANTS Pairs
VARIABLES c, d, disk
vars == <<c, d, disk>>
Opt(k, vs) == {<<>>} \cup {<< <<k, v>> >> : v \in vs}
Homes == IF Pairs THEN {"/S/h1", "h1"} ELSE {"", "/S/h1", "h 2", "h3/x%2520y"}
Urls1 == IF Pairs THEN {"file:///S/w/h1/schemas", "file:///S/u%201"} ELSE {"file:///S/u1", "file:///S/u 1", "file:///S/u%201", "file:///S/w/h3/x%2520y/schemas/"}
Lists == {<<"mysql://u:p@h/a">>, <<"postgresql://h/b", "mysql://h2/c">>}
SecFiles == IF Pairs THEN {<<>>, << <<"/S/s1", "URL", "file:///S/u3">> >>}
            ELSE {<< <<"/S/s1", "URL", "file:///S/u3">>, <<"/S/w/s2", "URLS", <<"mysql://h3/d">> >> >>, << <<"/S/s1", "URLS", <<"mysql://h3/d">> >> >>}
Configs ==
  {[cwd |-> "/S/w", user |-> "/S/me", env |-> h \o s \o u \o l, dot |-> dh \o du \o dl, sec |-> f]
   : h \in Opt("HOME", Homes), s \in Opt("SECRETS", {"/S/s1"} \cup IF Pairs THEN {} ELSE {"s2"}), u \in Opt("URL", Urls1), l \in IF Pairs THEN {<<>>} ELSE Opt("URLS", Lists),
     dh \in Opt("HOME", IF Pairs THEN {"/S/h4"} ELSE {"/S/h4", ""}), du \in Opt("URL", {"file:///S/u4"}), dl \in IF Pairs THEN {<<>>} ELSE Opt("URLS", {<<"mysql://h4/e">>}), f \in SecFiles}
Nil == [cwd |-> ""]
Init == c \in Configs /\ d = Nil /\ disk = <<>>
Run == Pairs /\ d = Nil /\ d' \in Configs /\ disk' = Stored(disk, c, "n", "1") /\ UNCHANGED c
Again == Pairs /\ Len(disk) = 1 /\ d # Nil /\ disk' = Stored(disk, d, "n", "2") /\ UNCHANGED <<c, d>>
Next == Run \/ Again
Spec == Init /\ [][Next]_vars

Encoded(p) == LET f(x) == IF x = " " THEN "%20" ELSE x IN LET cs == [i \in 1..Len(p) |-> f(Ch(p, i))] IN JoinStr(cs, "")
Sound ==
  /\ Root(c) # <<>> /\ Names(<<>>, c) = {}
  /\ Given(c.env, "URL") => Root(c) = PathOf(Canon(ParseUrl(ValueOf(c.env, "URL")).path))
  /\ Given(c.env, "URL") => Root(c) = Root([c EXCEPT !.dot = <<>>, !.sec = <<>>])
  /\ ~Set(c, "URL") /\ Place(c, "HOME") # "" => IsPrefixOf(From(c.cwd, Place(c, "HOME")), Root(c))
  /\ ~Set(c, "URL") /\ Place(c, "HOME") = "" => Root(c) = <<"S", "me", ".recap", "schemas">>
  /\ Given(c.env, "HOME") => Home(c) = Home([c EXCEPT !.dot = <<>>])
  /\ Set(c, "URL") => LET u == ParseUrl(StorageUrl(c)) e == [u EXCEPT !.path = Encoded(@)] IN Root(c) = Root([c EXCEPT !.env = << <<"URL", UrlText(e)>> >>])
  /\ ~InEnv(c, "SECRETS") => Root(c) = Root([c EXCEPT !.sec = <<>>]) /\ ConfiguredUrls(c) = ConfiguredUrls([c EXCEPT !.sec = <<>>])
  /\ Len(disk) = 1 => (Names(disk, d) = {"n"}) = (Root(c) = Root(d))
  /\ Len(disk) = 2 => Content(disk, d, "n") = "2" /\ Content(disk, c, "n") = IF Root(c) = Root(d) THEN "2" ELSE "1"
Emit == Pairs \/ PrintT(ToJson(c))
=============================================================================
