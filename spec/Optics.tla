--------------------------------- MODULE Optics --------------------------------
(* Exact optics on Pythagorean angles: sin and cos are rational, so the indices  *)
(* which take one such angle into another are rational too, and with them        *)
(* Fresnel's reflectances.  The lemmas are checked for every pair of angles, and *)
(* every pair is printed to be given to the real formulas.                       *)
EXTENDS Fixed, TLC
\* <<opposite, adjacent, hypotenuse>>: sin and cos of the angle to the normal
Angles == <<<<3, 4, 5>>, <<4, 3, 5>>, <<5, 12, 13>>, <<12, 5, 13>>, <<8, 15, 17>>, <<15, 8, 17>>, <<7, 24, 25>>, <<24, 7, 25>>, <<20, 21, 29>>, <<21, 20, 29>>, <<9, 40, 41>>, <<40, 9, 41>>>>
Sin(a) == Angles[a][1]
Cos(a) == Angles[a][2]
Hyp(a) == Angles[a][3]
\* Snell: n1 sin1 = n2 sin2, so n1 : n2 = sin2 : sin1
Ratio(a, b) == <<Sin(b) * Hyp(a), Sin(a) * Hyp(b)>>
\* amplitudes as fractions; their squares at 1e8
Rs(a, b) == <<Sin(b) * Cos(a) - Sin(a) * Cos(b), Sin(b) * Cos(a) + Sin(a) * Cos(b)>>
Rp(a, b) == LET x == Sin(b) * Cos(b) * Hyp(a) * Hyp(a) y == Sin(a) * Cos(a) * Hyp(b) * Hyp(b) IN <<x - y, x + y>>
Square(f) == LET q == DivS(f[1], f[2]) IN MulS(q, q)
Reflectance(a, b) == (Square(Rs(a, b)) + Square(Rp(a, b))) \div 2
Normal(p, q) == LET f == DivS(p - q, p + q) IN MulS(f, f)
\* the six pairs whose angles are complementary have no reflection polarised in the plane
Brewster(a, b) == Sin(a) = Cos(b) /\ Cos(a) = Sin(b)
VARIABLES a, b, told
Init == a \in DOMAIN Angles /\ b \in DOMAIN Angles /\ told = FALSE
Next == ~told /\ told' = TRUE /\ UNCHANGED <<a, b>> /\ PrintT(<<"V", a, b>>)
Bounded == Reflectance(a, b) >= 0 /\ Reflectance(a, b) <= ONE
Reciprocal == Near(Reflectance(a, b), Reflectance(b, a), 4)
SameIndex == (a = b) => Reflectance(a, b) = 0
NoParallel == (Brewster(a, b) <=> Rp(a, b)[1] = 0) \/ a = b
\* the perpendicular part is always the stronger
Order == Square(Rs(a, b)) >= Square(Rp(a, b)) - 4
Inv == Bounded /\ Reciprocal /\ SameIndex /\ NoParallel /\ Order
================================================================================
