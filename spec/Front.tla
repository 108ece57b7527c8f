-------------------------------- MODULE Front --------------------------------
(* The three ways to ask for a schema or a listing - library call, gateway    *)
(* and command line - over sources whose content changes between requests.    *)
(* A source is a file, a subject of a Confluent registry, or a table ("db").  *)
(* Direct[version][language][format] is the conversion of a content, read in  *)
(* a language, to a format: [st |-> "ok" or "err", v |-> text].               *)
EXTENDS Base

AvroExt == {"avsc", "avro", "avdl", "avpr"}
JsonExt == {"json", "jsonschema", "jsons"}
ProtoExt == {"proto", "protobuf", "protos", "proto2", "proto3"}
FileName(p) == Drop(p, LastIndexOf(p, "/"))
Ext(p) == LET n == FileName(p)  i == LastIndexOf(n, ".") IN IF i <= 1 THEN "" ELSE Lower(Drop(n, i))
Language(p) == LET e == Ext(p) IN
  IF e \in AvroExt THEN "avro" ELSE IF e \in JsonExt THEN "json" ELSE IF e \in ProtoExt THEN "protobuf" ELSE "none"
Registered(t) == IF t = "AVRO" THEN "avro" ELSE IF t = "JSON" THEN "json" ELSE IF t = "PROTOBUF" THEN "protobuf" ELSE "none"
Subject(n) == IF EndsWith(n, "-key") \/ EndsWith(n, "-value") THEN n ELSE n \o "-value"

Formats == {"avro", "json", "protobuf", "recap"}
OfContentType(c) ==
  IF c = "" \/ c = "application/x-recap+json" THEN "recap"
  ELSE IF c = "application/schema+json" THEN "json"
  ELSE IF c = "application/avro+json" THEN "avro"
  ELSE IF c = "application/x-protobuf" THEN "protobuf" ELSE "none"
\* the format asked for: the gateway's is a content type
Asked(front, arg) == IF front = "http" THEN OfContentType(arg) ELSE IF arg = "" THEN "recap" ELSE IF arg \in Formats THEN arg ELSE "none"

\* store: sequence of [kind, name, lang, ver], in the order in which the names appeared
Find(store, kind, name) == IndexOf(store, LAMBDA x : x.kind = kind /\ x.name = name)
Put(store, x) == LET i == Find(store, x.kind, x.name) IN IF i = 0 THEN Append(store, x) ELSE [store EXCEPT ![i] = x]
Remove(store, kind, name) == SelectSeq(store, LAMBDA x : ~(x.kind = kind /\ x.name = name))

Err == [st |-> "err", v |-> ""]
Outcome(store, kind, name, fmt, Direct) ==
  LET i == Find(store, kind, IF kind = "csr" THEN Subject(name) ELSE name) IN
  IF i = 0 THEN Err
  ELSE LET x == store[i]
           lang == IF kind = "file" THEN Language(name) ELSE IF kind = "csr" THEN Registered(x.lang) ELSE "db"
       IN IF lang = "none" \/ lang \notin DOMAIN Direct[x.ver] THEN Err ELSE Direct[x.ver][lang][fmt]
Answer(store, front, kind, name, arg, Direct) ==
  LET f == Asked(front, arg) IN
  IF f = "none" THEN [st |-> IF front = "http" THEN "415" ELSE "err", v |-> ""] ELSE Outcome(store, kind, name, f, Direct)

\* the names below a folder (files), or all subjects
Below(store, kind, dir) ==
  IF kind = "csr" THEN MapSeq(LAMBDA x : x.name, SelectSeq(store, LAMBDA x : x.kind = "csr"))
  ELSE LET pre == IF dir = "" THEN "" ELSE dir \o "/"
           fs == SelectSeq(store, LAMBDA x : x.kind = kind /\ StartsWith(x.name, pre))
       IN MapSeq(LAMBDA x : Before(Drop(x.name, Len(pre)), "/"), fs)
Listed(store, kind, dir, names) ==
  LET b == Below(store, kind, dir) IN
  IF kind = "csr" THEN names = b ELSE Range(names) = Range(b) /\ Len(names) = Cardinality(Range(b))
=============================================================================
