------------------------------- MODULE Sched -------------------------------
(* The engine's parallel loop: N rays in chunks handed to W workers in any    *)
(* order; each ray's outcome is a function of (seed + index) alone; every     *)
(* worker keeps private tallies, merged at the end; every E-th ray's history  *)
(* is stored in its own slot.  Whatever the schedule the result is one.       *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS N, W, Chunk, Every
VARIABLES todo, cur, acc, slot, merged
vars == <<todo, cur, acc, slot, merged>>
Rays == 0..(N - 1)
Outcome(i) == (i * 7 + 3) % 5              \* any function of the ray's seed
Chunks == {c \in Rays : c % Chunk = 0}
Recorded(i) == Every > 0 /\ i % Every = 0
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Outcome(x) + Sum(S \ {x})
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Total(f, S \ {x})
Init == /\ todo = Chunks /\ cur = [w \in 1..W |-> {}] /\ acc = [w \in 1..W |-> 0]
        /\ slot = [k \in {} |-> 0] /\ merged = -1
Grab(w) == \E c \in todo : /\ cur[w] = {} /\ merged = -1
                           /\ cur' = [cur EXCEPT ![w] = {i \in Rays : i >= c /\ i < c + Chunk}]
                           /\ todo' = todo \ {c} /\ UNCHANGED <<acc, slot, merged>>
Trace(w) == \E i \in cur[w] : /\ acc' = [acc EXCEPT ![w] = @ + Outcome(i)]
                              /\ slot' = IF Recorded(i) THEN [k \in DOMAIN slot \cup {i \div Every} |->
                                              IF k = i \div Every THEN Outcome(i) ELSE slot[k]] ELSE slot
                              /\ cur' = [cur EXCEPT ![w] = @ \ {i}] /\ UNCHANGED <<todo, merged>>
Merge == /\ todo = {} /\ \A w \in 1..W : cur[w] = {} /\ merged = -1
         /\ merged' = Total(acc, 1..W) /\ UNCHANGED <<todo, cur, acc, slot>>
Next == (\E w \in 1..W : Grab(w) \/ Trace(w)) \/ Merge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Deterministic == merged # -1 =>
  /\ merged = Sum(Rays)
  /\ \A i \in Rays : Recorded(i) => slot[i \div Every] = Outcome(i)
  /\ Cardinality(DOMAIN slot) = Cardinality({i \in Rays : Recorded(i)})
Ends == <>(merged # -1)
=============================================================================
