------------------------------- MODULE MC_Urls -------------------------------
(* Every configured URL and request over small components: the specification *)
(* lists no credentials, gives them only to covered requests, and reads back *)
(* what it writes.                                                           *)
EXTENDS Urls, Json, IOUtils
CONSTANTS Full, Mode
VARIABLES c, r
vars == <<c, r>>
Schemes == IF Full THEN {"postgresql", "mysql", "http+csr"} ELSE {"postgresql", "mysql"}
Hosts == IF Full THEN {"h", "H", "10.0.0.1", "[::1]"} ELSE {"h"}
CPaths == IF Full THEN {"", "/", "/a", "/a/", "/a/b", "//a"} ELSE {"", "/a", "/a/b/"}
RPaths == IF Full THEN {"", "/", "/a", "/a/", "/a/b", "/ab", "/a/../b", "/a/b/c", "/a/./b", "/b", "//a"} ELSE {"", "/a", "/ab", "/a/b", "/a/../b", "/a/b/c", "/b"}
Creds == IF Full THEN {<<FALSE, "", "">>, <<TRUE, "u", "p">>, <<TRUE, "u%40", "%2F%3A">>, <<TRUE, "", "p">>} ELSE {<<FALSE, "", "">>, <<TRUE, "u", "p%40">>}
Qs == IF Full THEN {"", "k=1", "k=2&m=x%26", "m=a&m=b"} ELSE {"", "k=1&n=2"}
RQs == IF Full THEN {"", "k=3", "m=z", "k=1&k=2"} ELSE {"", "k=3"}
U(s, cr, h, po, pa, q, f) == [scheme |-> s, hasui |-> cr[1], user |-> cr[2], pass |-> cr[3], host |-> h, port |-> po, path |-> pa, query |-> q, frag |-> f]
None == <<FALSE, "", "">>
Configs == {U(s, cr, h, po, pa, q, f) : s \in Schemes, cr \in Creds, h \in Hosts, po \in {"", "5"}, pa \in CPaths, q \in Qs, f \in {""} \cup (IF Full THEN {"f"} ELSE {})}
Requests == {U(s, cr, h, po, pa, q, f) : s \in Schemes, cr \in {None}, h \in Hosts \cup (IF Full THEN {""} ELSE {"g"}), po \in {"", "5", "50"}, pa \in RPaths, q \in RQs, f \in {""} \cup (IF Full THEN {"z"} ELSE {})}
Nil == [scheme |-> ""]
Init == c \in Configs /\ r = Nil
Next == Mode = "pairs" /\ r = Nil /\ r' \in Requests /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Quiet(u) == u.pass = "" \/ ~HasSub(UrlText(Listed(u)), u.pass)
Sound ==
  /\ LET p == ParseUrl(UrlText(c)) IN p = c \/ p = [c EXCEPT !.hasui = FALSE]
  /\ ~Listed(c).hasui /\ SamePlace(Listed(c), c)
  /\ Covers(c, Listed(c)) /\ IsCompleted(Completed(c, Listed(c)), c, Listed(c))
  /\ r # Nil => /\ ParseUrl(UrlText(r)) = r
                /\ Covers(c, r) => /\ AnswerOk(<<c>>, r, TRUE, "ok", UrlText(Completed(c, r)), UrlText(r))
                                   /\ ~AnswerOk(<<c>>, r, TRUE, "err", "", UrlText(r))
                                   /\ c.hasui => ~AnswerOk(<<c>>, r, FALSE, "ok", UrlText(r), UrlText(r))
                /\ ~Covers(c, r) => /\ AnswerOk(<<c>>, r, TRUE, "err", "", UrlText(r))
                                    /\ ~AnswerOk(<<c>>, r, TRUE, "ok", UrlText(Completed(c, r)), UrlText(r))
                                    /\ c.hasui => ~AnswerOk(<<c>>, r, FALSE, "ok", UrlText(Completed(c, r)), UrlText(r))
Emit == IF Mode = "pairs" THEN r # Nil => PrintT(ToJson([c |-> UrlText(c), r |-> UrlText(r)])) ELSE PrintT(ToJson([c |-> UrlText(c)]))
=============================================================================
