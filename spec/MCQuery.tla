------------------------------ MODULE MCQuery ------------------------------
(* Databases of up to Rows rows over two nodes in a world; every query.  With *)
(* Emit, every finished database is printed, to be built and asked for real. *)
EXTENDS QueryDef, TLC
CONSTANTS Rows, Emit, NThrows
VARIABLES db, out
Nodes == {"world", "a", "b"}
SurfRow == {[kind |-> k, hit |-> x[1], adj |-> x[2], cont |-> x[3]] : k \in {"REFLECT", "TRANSMIT"},
            x \in {<<"a", "a", "world">>, <<"a", "world", "a">>, <<"b", "b", "a">>, <<"b", "a", "b">>, <<"a", "b", "a">>}}
VolRow == {[kind |-> k, hit |-> "", adj |-> "", cont |-> c] : k \in {"NONRADIATIVE", "REACT", "KILL", "SCATTER"}, c \in {"world", "a"}}
          \cup {[kind |-> "GENERATE", hit |-> "", adj |-> "", cont |-> ""], [kind |-> "EXIT", hit |-> "world", adj |-> "", cont |-> "world"]}
Mk(e, t, n, v) == [t |-> t, kind |-> e.kind, hit |-> e.hit, adj |-> e.adj, cont |-> e.cont, facet |-> IF n = 0 THEN "f" ELSE "g",
                   hasn |-> e.hit # "", n |-> <<n, 0, 0>>, src |-> IF v = 1 THEN "s" ELSE "r", wl |-> v, dur |-> 3 - v + t]
RowSet == {Mk(e, t, n, v) : e \in SurfRow, t \in 1..NThrows, n \in {0, 1}, v \in 1..2} \cup {Mk(e, t, 0, v) : e \in VolRow, t \in 1..NThrows, v \in 1..2}
NoN == <<FALSE, 0>>
Queries == {[cmd |-> c, node |-> x, n |-> <<nn, NoN, NoN>>, atol |-> a, facet |-> f, source |-> s] :
            c \in Surface, x \in {"a", "b"}, nn \in {NoN, <<TRUE, 0>>, <<TRUE, 1>>}, a \in {0, 1}, f \in {"", "f"}, s \in {"", "s"}}
           \cup {[cmd |-> c, node |-> x, n |-> <<NoN, NoN, NoN>>, atol |-> 0, facet |-> "", source |-> s] :
                 c \in {"lost", "reacted", "killed"}, x \in {"world", "a"}, s \in {"", "s"}}
Init == db = <<>> /\ out = FALSE
Add(r) == ~out /\ Len(db) < Rows /\ db' = Append(db, r) /\ UNCHANGED out
Code(r) == <<r.t, r.kind, r.hit, r.adj, r.cont, r.facet, r.hasn, r.n[1], r.src, r.wl, r.dur>>
Finish == Emit /\ ~out /\ Len(db) = Rows /\ out' = TRUE /\ UNCHANGED db /\ PrintT(<<"V", [i \in DOMAIN db |-> Code(db[i])]>>)
AddRow == \E r \in RowSet : Add(r)
Next == AddRow \/ Finish
Kept == SelectSeq(db, End)
Inv == \A q \in Queries :
   /\ Throws(db, q) = Throws(Kept, q)
   /\ \A w \in {"spectrum", "time"} :
        /\ Pairs(db, q, w) = Pairs(Kept, q, w)
        /\ {p[1] : p \in Pairs(db, q, w)} = Throws(db, q)
   /\ Count(db, q) <= Len(db)
   \* a looser query never answers less; one row answers at most one of the six commands for a node
   /\ (q.atol = 0 => Throws(db, q) \subseteq Throws(db, [q EXCEPT !.atol = 1]))
   /\ Throws(db, q) \subseteq Throws(db, [q EXCEPT !.source = ""])
   /\ Throws(db, q) \subseteq Throws(db, [q EXCEPT !.n = <<NoN, NoN, NoN>>])
One == \A i \in DOMAIN db : \A x \in Nodes :
   Cardinality({c \in Surface \cup {"lost", "reacted", "killed"} :
       Match(db[i], [cmd |-> c, node |-> x, n |-> <<NoN, NoN, NoN>>, atol |-> 0, facet |-> "", source |-> ""])}) <= 1
Inv2 == Inv /\ One
=============================================================================
