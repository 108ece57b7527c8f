-------------------------------- MODULE Base --------------------------------
(* Strings, decimal numbers, tagged JSON values and attribute maps.          *)
(* TLC strings are sequences of characters for Len, SubSeq and \o.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}

RECURSIVE MapSeq(_, _)
MapSeq(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]

RECURSIVE FlattenSeq2(_)
FlattenSeq2(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeq2(Tail(ss))

SelectSeq2(s, P(_)) == SelectSeq(s, P)

\* index of the first element satisfying P, or 0
IndexOf(s, P(_)) ==
  IF \E i \in 1..Len(s) : P(s[i])
  THEN CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in 1..(i-1) : ~P(s[j])
  ELSE 0

RECURSIVE AllDistinct(_)
AllDistinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

------------------------------------------------------------------------------
(* Strings *)
Ch(s, i) == SubSeq(s, i, i)
Chars(s) == {Ch(s, i) : i \in 1..Len(s)}
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Contains(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c
HasSub(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
LastIndexOf(s, c) ==
  IF Contains(s, c)
  THEN CHOOSE i \in 1..Len(s) : Ch(s, i) = c /\ \A k \in (i+1)..Len(s) : Ch(s, k) # c
  ELSE 0
FirstIndexOf(s, c) ==
  IF Contains(s, c)
  THEN CHOOSE i \in 1..Len(s) : Ch(s, i) = c /\ \A k \in 1..(i-1) : Ch(s, k) # c
  ELSE 0

Before(s, c) == LET i == FirstIndexOf(s, c) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)

RECURSIVE Split(_, _)
Split(s, c) ==
  LET i == FirstIndexOf(s, c)
  IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(Drop(s, i), c)

RECURSIVE JoinStr(_, _)
JoinStr(ss, sep) ==
  IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
  ELSE ss[1] \o sep \o JoinStr(Tail(ss), sep)

LowerAlpha == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q",
               "r","s","t","u","v","w","x","y","z"}
UpperAlpha == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q",
               "R","S","T","U","V","W","X","Y","Z"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Alpha == LowerAlpha \cup UpperAlpha
AlphaNum == Alpha \cup Digits

UpperStr == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerStr == "abcdefghijklmnopqrstuvwxyz"
\* only ASCII letters have case here; inputs keep to that where case matters
LowCh(c) == LET i == FirstIndexOf(UpperStr, c) IN IF i = 0 THEN c ELSE Ch(LowerStr, i)
UpCh(c) == LET i == FirstIndexOf(LowerStr, c) IN IF i = 0 THEN c ELSE Ch(UpperStr, i)
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowCh(Ch(s, 1)) \o Lower(Drop(s, 1))
RECURSIVE Upper(_)
Upper(s) == IF s = "" THEN "" ELSE UpCh(Ch(s, 1)) \o Upper(Drop(s, 1))

RECURSIVE RStrip(_, _)
RStrip(s, c) == IF s # "" /\ Ch(s, Len(s)) = c THEN RStrip(SubSeq(s, 1, Len(s)-1), c) ELSE s
RECURSIVE LStrip(_, _)
LStrip(s, c) == IF s # "" /\ Ch(s, 1) = c THEN LStrip(Drop(s, 1), c) ELSE s

------------------------------------------------------------------------------
(* Integers of any size, as canonical decimal strings: "-"? digits, no leading 0 *)
IsNeg(d) == Ch(d, 1) = "-"
DigitStr == "0123456789"
DigitVal(c) == FirstIndexOf(DigitStr, c) - 1
RECURSIVE LexLeq(_, _)
LexLeq(x, y) ==
  IF x = "" THEN TRUE
  ELSE LET a == DigitVal(Ch(x, 1)) b == DigitVal(Ch(y, 1))
       IN IF a < b THEN TRUE ELSE IF a > b THEN FALSE ELSE LexLeq(Drop(x, 1), Drop(y, 1))
MagLeq(x, y) == IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE LexLeq(x, y)
DecLeq(x, y) ==
  CASE IsNeg(x) /\ ~IsNeg(y) -> TRUE
    [] ~IsNeg(x) /\ IsNeg(y) -> FALSE
    [] IsNeg(x) /\ IsNeg(y) -> MagLeq(Drop(y, 1), Drop(x, 1))
    [] OTHER -> MagLeq(x, y)
DecLt(x, y) == x # y /\ DecLeq(x, y)
RECURSIVE DecVal(_)
\* value of a small non-negative decimal string (below 2^31)
DecVal(d) == IF Len(d) = 1 THEN DigitVal(d)
             ELSE 10 * DecVal(SubSeq(d, 1, Len(d) - 1)) + DigitVal(Ch(d, Len(d)))
RECURSIVE DecStr(_)
DecStr(n) == IF n < 10 THEN Ch(DigitStr, n + 1) ELSE DecStr(n \div 10) \o Ch(DigitStr, (n % 10) + 1)

MaxI32 == "2147483647"
Two31 == "2147483648"
MaxI64 == "9223372036854775807"

------------------------------------------------------------------------------
(* Tagged JSON values *)
JNull == [t |-> "null"]
JBool(b) == [t |-> "bool", v |-> IF b THEN "true" ELSE "false"]
JTrue == JBool(TRUE)
JFalse == JBool(FALSE)
JStr(s) == [t |-> "str", v |-> s]
JInt(d) == [t |-> "int", v |-> d]
JArr(c) == [t |-> "arr", c |-> c]
EmptyMap == [x \in {} |-> JNull]
JObj(ks, m) == [t |-> "obj", ks |-> ks, m |-> m]

IsStr(x) == x.t = "str"
IsInt(x) == x.t = "int"
IsArr(x) == x.t = "arr"
IsObj(x) == x.t = "obj"
IsTrue(x) == x = JTrue

Has(m, k) == k \in DOMAIN m
Get(m, k, d) == IF k \in DOMAIN m THEN m[k] ELSE d
Without(m, S) == [k \in DOMAIN m \ S |-> m[k]]
With(m, k, v) == (k :> v) @@ m
Only(m, S) == [k \in DOMAIN m \cap S |-> m[k]]

OHas(o, k) == Has(o.m, k)
OGet(o, k, d) == Get(o.m, k, d)

\* equality up to the order of object keys
RECURSIVE JEq(_, _)
JEq(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "null" -> TRUE
       [] a.t = "arr" -> Len(a.c) = Len(b.c) /\ \A i \in 1..Len(a.c) : JEq(a.c[i], b.c[i])
       [] a.t = "obj" -> DOMAIN a.m = DOMAIN b.m /\ \A k \in DOMAIN a.m : JEq(a.m[k], b.m[k])
       [] OTHER -> a.v = b.v
AEq(m, n) == DOMAIN m = DOMAIN n /\ \A k \in DOMAIN m : JEq(m[k], n[k])

\* an object built from a map whose key order is irrelevant
ObjOf(m) == [t |-> "obj", ks |-> <<>>, m |-> m]
=============================================================================
