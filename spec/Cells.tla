--------------------------------- MODULE Cells ---------------------------------
(* Solids made of equal cubes: a solid is [s, cells], the cell <<x,y,z>> fills   *)
(* x*s..(x+1)*s on each axis.  Which points are inside, which squares bound the  *)
(* solid, and where a line with whole-number origin and direction crosses them,  *)
(* exactly.  A closed mesh is the surface of such a solid.                       *)
EXTENDS Integers, Sequences, FiniteSets
AbsC(x) == IF x < 0 THEN -x ELSE x
SgnC(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Rest(a) == (1..3) \ {a}
InCell(S, c) == c \in S.cells
CellOf(S, p) == <<p[1] \div S.s, p[2] \div S.s, p[3] \div S.s>>
OnPlane(S, p) == \E a \in 1..3 : p[a] % S.s = 0
\* cells touching a point: one inside a cell, two on a face, four or eight on an edge or corner
Around(S, p) == LET near(a) == IF p[a] % S.s = 0 THEN {p[a] \div S.s - 1, p[a] \div S.s} ELSE {p[a] \div S.s}
                IN near(1) \X near(2) \X near(3)
\* -1 inside, 0 on the surface, 1 outside
SideC(S, p) == LET around == Around(S, p) IN IF around \subseteq S.cells THEN -1 ELSE IF around \cap S.cells = {} THEN 1 ELSE 0
Shift(c, a, k) == [c EXCEPT ![a] = c[a] + k]
\* a crossing is <<a, k>>: the plane k*s of axis a.  The line meets it at t = num/den > 0
Num(S, o, d, x) == SgnC(d[x[1]]) * (x[2] * S.s - o[x[1]])
Den(d, x) == AbsC(d[x[1]])
\* coordinate b there, times Den
AtC(S, o, d, x, b) == o[b] * Den(d, x) + d[b] * Num(S, o, d, x)
Planes(S, d) == UNION {{<<a, k>> : k \in UNION {{c[a], c[a] + 1} : c \in S.cells}} : a \in {a \in 1..3 : d[a] # 0}}
Ahead(S, o, d) == {x \in Planes(S, d) : Num(S, o, d, x) > 0}
\* the cells before and behind the plane where the line meets it (off edges)
Beside(S, o, d, x) == LET a == x[1] c == [b \in 1..3 |-> IF b = a THEN x[2] ELSE AtC(S, o, d, x, b) \div (Den(d, x) * S.s)]
                      IN <<Shift(c, a, -1), c>>
EdgeAt(S, o, d, x) == \E b \in Rest(x[1]) : AtC(S, o, d, x, b) % (Den(d, x) * S.s) = 0
\* the line meets an edge of the lattice, or runs in one of its planes: not judged
Delicate(S, o, d) == \/ \E x \in Ahead(S, o, d) : EdgeAt(S, o, d, x)
                     \/ \E a \in 1..3 : d[a] = 0 /\ o[a] % S.s = 0
CrossC(S, o, d) == {x \in Ahead(S, o, d) : LET b == Beside(S, o, d, x) IN (b[1] \in S.cells) # (b[2] \in S.cells)}
\* outward normal: +1 when the solid lies before the plane
OutC(S, o, d, x) == LET b == Beside(S, o, d, x) IN IF b[1] \in S.cells THEN 1 ELSE -1
Before(S, o, d, x, y) == Num(S, o, d, x) * Den(d, y) < Num(S, o, d, y) * Den(d, x)
===============================================================================
