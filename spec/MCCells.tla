-------------------------------- MODULE MCCells --------------------------------
(* Checks Cells itself: a closed surface is crossed an odd number of times from  *)
(* inside and an even number from outside; entering and leaving alternate; the   *)
(* line seen from its two ends agrees; a step along the line loses exactly the   *)
(* crossings it passes.                                                          *)
EXTENDS Cells
CONSTANTS S0, Dirs
Grid == (0..1) \X (0..1) \X (0..1)
Solids == {[s |-> S0, cells |-> c] : c \in (SUBSET Grid \ {{}})} \cup {[s |-> S0, cells |-> {<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<0, 1, 0>>, <<2, 1, 0>>}]}
VARIABLES S, o, d
Init == S \in Solids /\ o \in {p \in (-1..(2 * S0 + 1)) \X (-1..(2 * S0 + 1)) \X {-1, 1, S0} : TRUE} /\ d \in {v \in (-Dirs..Dirs) \X (-Dirs..Dirs) \X (-Dirs..Dirs) : v # <<0, 0, 0>>}
Next == /\ o' = <<o[1] + d[1], o[2] + d[2], o[3] + d[3]>> /\ \A a \in 1..3 : o'[a] \in -2..(3 * S0) /\ UNCHANGED <<S, d>>
Back == <<-d[1], -d[2], -d[3]>>
Clean(p) == ~Delicate(S, p, d) /\ ~Delicate(S, p, Back)
N(p, v) == Cardinality(CrossC(S, p, v))
Parity == Clean(o) => CASE SideC(S, o) = -1 -> N(o, d) % 2 = 1 /\ N(o, Back) % 2 = 1
                        [] SideC(S, o) = 1 -> N(o, d) % 2 = 0 /\ N(o, Back) % 2 = 0
                        [] OTHER -> (N(o, d) + N(o, Back)) % 2 = 1
\* sides alternate, and the last crossing leaves
Alternate == Clean(o) => LET cs == CrossC(S, o, d) leaving(x) == OutC(S, o, d, x) * d[x[1]] > 0
                             after(x) == {y \in cs : Before(S, o, d, x, y)}
                         IN \A x \in cs : leaving(x) = (Cardinality(after(x)) % 2 = 0)
Line == [][(Clean(o) /\ ~Delicate(S, o', d) /\ ~Delicate(S, o', Back)) => CrossC(S, o', d) \subseteq CrossC(S, o, d)]_<<S, o, d>>
===============================================================================
