------------------------------- MODULE MC_Hive -------------------------------
(* Hive types built up from Base by Steps constructions, the last ones first. *)
EXTENDS Hive, Json, IOUtils
CONSTANTS Steps
VARIABLES pool, n
vars == <<pool, n>>
P(h, ps) == [h |-> h, n |-> ps, names |-> <<>>, c |-> <<>>]
Prims == {P(h, <<>>) : h \in {"void", "boolean", "tinyint", "smallint", "int", "bigint", "float", "double", "string", "binary", "date", "timestamp",
                              "timestamp with local time zone", "interval_year_month", "interval_day_time"}}
         \cup {P("decimal", <<"10", "0">>), P("decimal", <<"38", "38">>), P("decimal", <<"1", "1">>), P("varchar", <<"1">>), P("varchar", <<"65535">>), P("char", <<"1">>), P("char", <<"255">>)}
Base2 == {P("void", <<>>), P("int", <<>>), P("decimal", <<"10", "2">>), P("decimal", <<"10", "3">>)}
Pick == IF n = 0 THEN Base2 ELSE {pool} \cup {P("int", <<>>), P("void", <<>>)}
C(h, ns, cs) == [h |-> h, n |-> <<>>, names |-> ns, c |-> cs]
Init == pool \in Prims /\ n = 0
Next == /\ n < Steps /\ n' = n + 1
        /\ \/ pool' = C("array", <<>>, <<pool>>)
           \/ \E k \in Pick : pool' \in {C("map", <<>>, <<k, pool>>), C("map", <<>>, <<pool, k>>)}
           \/ \E k \in Pick : pool' \in {C("struct", <<"a", "b">>, <<pool, k>>), C("struct", <<"x">>, <<pool>>)}
           \/ pool' = C("uniontype", <<>>, <<pool>>)
           \/ \E k \in Pick : pool' \in {C("uniontype", <<>>, <<k, pool>>), C("uniontype", <<>>, <<pool, k>>)}
           \/ \E k, m \in Pick : pool' = C("uniontype", <<>>, <<k, pool, m>>)
Spec == Init /\ [][Next]_vars

\* every type inside is nullable, no union stands in a union or repeats an alternative
RECURSIVE Good(_)
Good(t) == /\ t.k = "null" \/ (t.k = "union" /\ Get(t.a, "default", [t |-> "none"]) = JNull /\ TEq(t.c[1], TNull))
           /\ t.k = "union" => /\ \A i \in 1..Len(t.c) : t.c[i].k # "union"
                               /\ \A i, j \in 1..Len(t.c) : TEq(t.c[i], t.c[j]) => i = j
                               /\ \A i \in 1..Len(t.c) : \A j \in 1..Len(t.c[i].c) : Good(t.c[i].c[j])
Sound == Good(HiveType(pool)) /\ AllSizesOk(HiveType(pool))
Emit == PrintT(ToJson([h |-> pool]))
=============================================================================
