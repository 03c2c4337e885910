---------------------------------- MODULE Dist ----------------------------------
(* Every small table, and what must hold of its lookups and draws; the tables    *)
(* are printed and given to the real class.                                      *)
EXTENDS DistDef, TLC
CONSTANTS MaxLen, Gaps, Tops
VARIABLES t, told
RECURSIVE Sums(_, _)
Sums(g, k) == IF k = 0 THEN 0 ELSE Sums(g, k - 1) + g[k]
Tables == UNION {{[x |-> [k \in 1..n |-> Sums(g, k - 1)], y |-> w, hist |-> h] : g \in [1..(n - 1) -> Gaps], w \in [1..n -> 0..Tops], h \in BOOLEAN} : n \in 2..MaxLen}
Init == t \in {a \in Tables : Total(a) > 0} /\ told = FALSE
Next == ~told /\ told' = TRUE /\ UNCHANGED t /\ PrintT(<<"V", t.x, t.y, t.hist>>)
Grid == {<<k, 0>> : k \in 1..Len(t.x)}
P == IF t.hist THEN Grid ELSE Places(t)
Monotone == \A p, q \in P : X4(t, p) <= X4(t, q) => Cdf4(t, p) <= Cdf4(t, q)
Bounded == \A p \in P : Cdf4(t, p) >= 0 /\ Cdf4(t, p) <= 4 * Total(t)
Ends == Cdf4(t, <<Len(t.x), 0>>) = 4 * Total(t) /\ (~t.hist => Cdf4(t, <<1, 0>>) = 0)
\* looking up and drawing again is the identity wherever there is weight
Inverse == ~t.hist => \A p \in P : (p[2] > 0 /\ t.y[p[1]] + t.y[p[1] + 1] > 0) => Flat(t, p) = {X4(t, p)}
Inv == Monotone /\ Bounded /\ Ends /\ Inverse
=================================================================================
