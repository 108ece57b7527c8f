------------------------------- MODULE MC_Front -------------------------------
(* Every history of a few changes of sources and requests through the three   *)
(* fronts; emitted for replay.                                                *)
EXTENDS Front, Json
CONSTANTS Files, Subjects, Names, Types, Contents, ContentTypes, Steps, Fronts
VARIABLES store, hist
vars == <<store, hist>>
LangOf(v) == Before(v, "#")
Direct == [v \in Contents |-> [l \in {"avro", "json", "protobuf"} |-> [f \in Formats |->
             IF LangOf(v) = l THEN [st |-> "ok", v |-> v \o "/" \o f] ELSE Err]]]
Event(ev, front, kind, name, arg, ver) == [ev |-> ev, front |-> front, kind |-> kind, name |-> name, arg |-> arg, ver |-> ver]
Init == store = <<>> /\ hist = <<>>
PutFile == \E n \in Files, v \in Contents :
  store' = Put(store, [kind |-> "file", name |-> n, lang |-> "", ver |-> v]) /\ hist' = Append(hist, Event("put", "", "file", n, "", v))
PutSubject == \E n \in Subjects, t \in Types, v \in Contents :
  store' = Put(store, [kind |-> "csr", name |-> n, lang |-> t, ver |-> v]) /\ hist' = Append(hist, Event("put", "", "csr", n, t, v))
Drop1 == \E i \in 1..Len(store) :
  store' = Remove(store, store[i].kind, store[i].name) /\ hist' = Append(hist, Event("drop", "", store[i].kind, store[i].name, "", ""))
Ask == \E f \in Fronts, k \in {"file", "csr"}, a \in Formats \cup ContentTypes \cup {""} :
  /\ (f = "http") => a \notin Formats
  /\ (f # "http") => a \notin ContentTypes
  /\ \E n \in IF k = "file" THEN Files ELSE Names : hist' = Append(hist, Event("get", f, k, n, a, ""))
  /\ store # <<>> /\ UNCHANGED store
Next == Len(hist) < Steps /\ (PutFile \/ PutSubject \/ Drop1 \/ Ask)
Spec == Init /\ [][Next]_vars
\* front and spelling of the format do not matter, only format and current content; nothing is read in a language that is not its own
Sound == \A i \in 1..Len(hist) : hist[i].ev = "get" =>
  LET h == hist[i]  a == Answer(store, h.front, h.kind, h.name, h.arg, Direct)  f == Asked(h.front, h.arg) IN
  /\ a.st = "415" <=> (h.front = "http" /\ f = "none")
  /\ f # "none" => \A g \in {"lib", "cli"} : Answer(store, g, h.kind, h.name, f, Direct) = a
  /\ a.st = "ok" => \E x \in Range(store) : x.kind = h.kind /\ a.v = x.ver \o "/" \o f
       /\ LangOf(x.ver) = (IF h.kind = "file" THEN Language(x.name) ELSE Registered(x.lang))
  /\ (h.kind = "file" /\ Language(h.name) = "none" /\ f # "none") => a.st = "err"
Unique == \A i, j \in 1..Len(store) : store[i].kind = store[j].kind /\ store[i].name = store[j].name => i = j
Emit == (Len(hist) = Steps /\ hist[Steps].ev = "get") => PrintT(ToJson([h |-> hist]))
=============================================================================
