-------------------------------- MODULE Share --------------------------------
(* How N throws are split over W tasks and over NL lights: the sizes add up,   *)
(* differ only by the remainder, and the k-th ray comes from light k mod NL.   *)
EXTENDS Integers, Sequences
CONSTANTS MaxN, MaxW, MaxL
VARIABLES n, w, nl, sizes, thrown, turn, phase
vars == <<n, w, nl, sizes, thrown, turn, phase>>
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
Init == /\ n \in 0..MaxN /\ w \in 1..MaxW /\ nl \in 1..MaxL /\ phase = "split"
        /\ sizes = <<>> /\ thrown = [l \in 1..nl |-> 0] /\ turn = 0
Split == /\ phase = "split" /\ phase' = "throw"
         /\ sizes' = IF w = 1 \/ n \div w = 0 THEN <<n>>
                     ELSE [k \in 1..w |-> n \div w + (IF k = 1 THEN n % w ELSE 0)]
         /\ UNCHANGED <<n, w, nl, thrown, turn>>
(* tasks run in any order: throw number k of task t is ray First(t)+k          *)
Throw == /\ phase = "throw" /\ turn < n /\ turn' = turn + 1
         /\ thrown' = [thrown EXCEPT ![(turn % nl) + 1] = @ + 1] /\ UNCHANGED <<n, w, nl, sizes, phase>>
Next == Split \/ Throw
Exact == phase = "throw" => Sum(sizes, Len(sizes)) = n /\ Len(sizes) <= w
Fair == \A a, b \in 1..nl : a < b => thrown[a] - thrown[b] \in {0, 1}
=============================================================================
