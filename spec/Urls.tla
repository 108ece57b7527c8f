-------------------------------- MODULE Urls --------------------------------
(* URLs as text and as components, what the public list of configured URLs   *)
(* may show, and when and how a requested URL is completed with a configured *)
(* one.  (RFC 3986 for URLs with an authority, i.e. scheme://...)            *)
EXTENDS Base

\* [scheme, hasui, user, pass, host, port, path, query, frag], all strings as written
AsciiStr == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
HexStr == "0123456789abcdef"
HexVal(c) == FirstIndexOf(HexStr, LowCh(c)) - 1
IsHex(c) == Contains(HexStr, LowCh(c))
\* %20 to %7e stand for their characters; every other escape stays (with upper case digits)
RECURSIVE Decode(_)
Decode(s) ==
  IF s = "" THEN ""
  ELSE IF Ch(s, 1) = "%" /\ Len(s) >= 3 /\ IsHex(Ch(s, 2)) /\ IsHex(Ch(s, 3))
       THEN LET n == HexVal(Ch(s, 2)) * 16 + HexVal(Ch(s, 3)) IN
            (IF n >= 32 /\ n <= 126 THEN Ch(AsciiStr, n - 31) ELSE Upper(SubSeq(s, 1, 3))) \o Decode(Drop(s, 3))
       ELSE Ch(s, 1) \o Decode(Drop(s, 1))
RECURSIVE PlusToSpace(_)
PlusToSpace(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = "+" THEN " " ELSE Ch(s, 1)) \o PlusToSpace(Drop(s, 1))

After(s, c) == LET i == FirstIndexOf(s, c) IN IF i = 0 THEN "" ELSE Drop(s, i)
IndexOfSep(s) == IF \E i \in 1..(Len(s) - 2) : SubSeq(s, i, i + 2) = "://"
                 THEN CHOOSE i \in 1..(Len(s) - 2) : SubSeq(s, i, i + 2) = "://" /\ \A k \in 1..(i - 1) : SubSeq(s, k, k + 2) # "://" ELSE 0
IsUrl(s) == IndexOfSep(s) > 1
ParseUrl(s) ==
  LET i == IndexOfSep(s)
      rest == Drop(s, i + 2)
      frag == After(rest, "#")
      nofrag == Before(rest, "#")
      query == After(nofrag, "?")
      hier == Before(nofrag, "?")
      auth == Before(hier, "/")
      path == Drop(hier, Len(auth))
      at == LastIndexOf(auth, "@")
      ui == IF at = 0 THEN "" ELSE SubSeq(auth, 1, at - 1)
      hp == Drop(auth, at)
      col == IF hp # "" /\ Ch(hp, 1) = "["
             THEN LET e == FirstIndexOf(hp, "]") IN IF e < Len(hp) THEN e + 1 ELSE 0
             ELSE LastIndexOf(hp, ":")
  IN [scheme |-> SubSeq(s, 1, i - 1), hasui |-> at # 0, user |-> Before(ui, ":"), pass |-> After(ui, ":"),
      host |-> IF col = 0 THEN hp ELSE SubSeq(hp, 1, col - 1), port |-> IF col = 0 THEN "" ELSE Drop(hp, col),
      path |-> path, query |-> query, frag |-> frag]

UrlText(u) ==
  u.scheme \o "://" \o (IF u.hasui THEN u.user \o (IF u.pass = "" THEN "" ELSE ":" \o u.pass) \o "@" ELSE "") \o u.host
  \o (IF u.port = "" THEN "" ELSE ":" \o u.port) \o u.path
  \o (IF u.query = "" THEN "" ELSE "?" \o u.query) \o (IF u.frag = "" THEN "" ELSE "#" \o u.frag)

(* the public form of a configured URL *)
Listed(u) == [u EXCEPT !.hasui = FALSE, !.user = "", !.pass = "", !.path = RStrip(@, "/")]
SamePlace(a, b) == /\ Lower(a.scheme) = Lower(b.scheme) /\ Lower(a.host) = Lower(b.host) /\ a.port = b.port
                   /\ RStrip(a.path, "/") = RStrip(b.path, "/") /\ a.query = b.query /\ a.frag = b.frag

(* which requests a configured URL covers *)
Parts(p) == SelectSeq(Split(p, "/"), LAMBDA x : x \notin {"", "."})
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Covers(c, r) == /\ Lower(c.scheme) = Lower(r.scheme) /\ Lower(c.host) = Lower(r.host) /\ c.port = r.port
                /\ ".." \notin Range(Parts(r.path)) /\ IsPrefixOf(Parts(c.path), Parts(r.path))

(* query parts as maps from names to sequences of values *)
RECURSIVE Params(_)
Params(items) ==
  IF items = <<>> THEN <<>>
  ELSE LET rest == Params(Tail(items))
           x == Head(items)
           k == Decode(PlusToSpace(Before(x, "=")))
           v == Decode(PlusToSpace(After(x, "=")))
       IN IF v = "" THEN rest
          ELSE [n \in DOMAIN rest \cup {k} |-> IF n = k THEN <<v>> \o Get(rest, k, <<>>) ELSE rest[n]]
Query(q) == Params(Split(q, "&"))
Merged(c, r) == LET a == Query(c.query) b == Query(r.query) IN [n \in DOMAIN a \cup DOMAIN b |-> IF n \in DOMAIN b THEN b[n] ELSE a[n]]

SameMap(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : a[k] = b[k]

Doubled(p) == Len(p) >= 2 /\ SubSeq(p, 1, 2) = "//"
\* is t the request r completed with the configured URL c?
IsCompleted(t, c, r) ==
  /\ Lower(t.scheme) = Lower(r.scheme) /\ Lower(t.host) = Lower(r.host) /\ t.port = r.port
  /\ Parts(t.path) = Parts(r.path) /\ (r.scheme = "sqlite" => Doubled(t.path) = Doubled(r.path))
  /\ Decode(t.user) = Decode(c.user) /\ Decode(t.pass) = Decode(c.pass)
  /\ SameMap(Query(t.query), Merged(c, r))
  /\ t.frag = (IF r.frag # "" THEN r.frag ELSE c.frag)
Name(item) == Decode(PlusToSpace(Before(item, "=")))
MergedText(c, r) ==
  LET own == {Name(x) : x \in Range(Split(r.query, "&"))}
      keep == SelectSeq(Split(c.query, "&"), LAMBDA x : x # "" /\ Name(x) \notin own)
  IN JoinStr(keep \o (IF r.query = "" THEN <<>> ELSE <<r.query>>), "&")
Completed(c, r) == [r EXCEPT !.hasui = c.hasui, !.user = c.user, !.pass = c.pass, !.path = RStrip(@, "/"),
                             !.query = MergedText(c, r),
                             !.frag = IF r.frag # "" THEN r.frag ELSE c.frag]

(* what answer to a request is right, given the configuration *)
AnswerOk(cs, r, strict, st, text, request) ==
  LET cover == {c \in Range(cs) : Covers(c, r)} IN
  IF cover # {} THEN st = "ok" /\ IsUrl(text) /\ \E c \in cover : IsCompleted(ParseUrl(text), c, r)
  ELSE IF strict THEN st = "err" ELSE st = "ok" /\ text = request
=============================================================================
