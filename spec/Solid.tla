-------------------------------- MODULE Solid ---------------------------------
(* Boxes, spheres and cylinders with whole-number half sizes, and lines with    *)
(* whole-number origin and direction: how often the line crosses the surface    *)
(* ahead of the origin and whether a point is inside, on or outside, exactly.   *)
(* A shape: [kind, h] with h = half sides / <<radius>> / <<radius, half length>>*)
EXTENDS Integers, Sequences, FiniteSets
Sq(x) == x * x
AbsI(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* sign of p + q*sqrt(D)
SgnRoot(p, q, D) == IF D = 0 \/ q = 0 THEN Sgn(p)
                    ELSE IF Sgn(p) = Sgn(q) \/ p = 0 THEN Sgn(q)
                    ELSE LET m == Sq(p) n == Sq(q) * D IN IF m = n THEN 0 ELSE IF m > n THEN Sgn(p) ELSE Sgn(q)
\* ---- where a point is: -1 inside, 0 on the surface, 1 outside
MaxOf3(a, b, c) == IF a >= b THEN (IF a >= c THEN a ELSE c) ELSE IF b >= c THEN b ELSE c
Side(s, p) == CASE s.kind = "box" -> Sgn(MaxOf3(AbsI(p[1]) - s.h[1], AbsI(p[2]) - s.h[2], AbsI(p[3]) - s.h[3]))
                [] s.kind = "sphere" -> Sgn(Sq(p[1]) + Sq(p[2]) + Sq(p[3]) - Sq(s.h[1]))
                [] s.kind = "cylinder" -> LET r == Sgn(Sq(p[1]) + Sq(p[2]) - Sq(s.h[1])) z == Sgn(AbsI(p[3]) - s.h[2])
                                          IN IF r >= z THEN r ELSE z
\* ---- crossings: [n |-> how many ahead, edge |-> touches an edge, runs along the surface or is tangent]
BoxFaces(s, o, d) == {<<k, g>> \in (1..3) \X {-1, 1} : d[k] # 0}
BoxNum(s, o, f) == f[2] * s.h[f[1]] - o[f[1]]
BoxIn(s, o, d, f) == \* -1 strictly inside the face, 0 on its edge, 1 off it
  LET k == f[1] num == BoxNum(s, o, f) off(j) == AbsI(o[j] * d[k] + num * d[j]) - s.h[j] * AbsI(d[k]) J == (1..3) \ {k}
  IN IF \E j \in J : off(j) > 0 THEN 1 ELSE IF \E j \in J : off(j) = 0 THEN 0 ELSE -1
BoxCross(s, o, d) ==
  LET ahead == {f \in BoxFaces(s, o, d) : BoxNum(s, o, f) * d[f[1]] > 0}
  IN [n |-> Cardinality({f \in ahead : BoxIn(s, o, d, f) = -1}),
      edge |-> \/ \E f \in BoxFaces(s, o, d) : BoxNum(s, o, f) * d[f[1]] >= 0 /\ BoxIn(s, o, d, f) = 0
               \/ \E k \in 1..3 : d[k] = 0 /\ AbsI(o[k]) = s.h[k]]
SphereCross(s, o, d) ==
  LET b == o[1] * d[1] + o[2] * d[2] + o[3] * d[3]
      a == Sq(d[1]) + Sq(d[2]) + Sq(d[3])
      c == Sq(o[1]) + Sq(o[2]) + Sq(o[3]) - Sq(s.h[1])
      D == Sq(b) - a * c
  IN [n |-> IF c < 0 THEN 1 ELSE IF c = 0 THEN (IF b < 0 THEN 1 ELSE 0) ELSE IF D > 0 /\ b < 0 THEN 2 ELSE 0, edge |-> D = 0]
CylCross(s, o, d) ==
  LET R == s.h[1] H == s.h[2]
      a == Sq(d[1]) + Sq(d[2]) b == o[1] * d[1] + o[2] * d[2] c == Sq(o[1]) + Sq(o[2]) - Sq(R)
      D == Sq(b) - a * c
      roots == IF a > 0 /\ D > 0 THEN {-1, 1} ELSE {}
      \* z at root g against plane e*H: sign of z - e*H
      zs(g, e) == SgnRoot(a * (o[3] - e * H) - d[3] * b, g * d[3], D)
      t(g) == SgnRoot(-b, g, D)
      side == {g \in roots : t(g) > 0 /\ zs(g, 1) < 0 /\ zs(g, -1) > 0}
      num(e) == e * H - o[3]
      cap(e) == Sgn(Sq(o[1] * d[3] + num(e) * d[1]) + Sq(o[2] * d[3] + num(e) * d[2]) - Sq(R) * Sq(d[3]))
      caps == {e \in {-1, 1} : d[3] # 0 /\ num(e) * d[3] > 0 /\ cap(e) = -1}
  IN [n |-> Cardinality(side) + Cardinality(caps),
      edge |-> \/ (a > 0 /\ D = 0) \/ (a = 0 /\ c = 0) \/ (d[3] = 0 /\ AbsI(o[3]) = H)
               \/ \E e \in {-1, 1} : d[3] # 0 /\ num(e) * d[3] >= 0 /\ cap(e) = 0]
Cross(s, o, d) == CASE s.kind = "box" -> BoxCross(s, o, d) [] s.kind = "sphere" -> SphereCross(s, o, d) [] s.kind = "cylinder" -> CylCross(s, o, d)
===============================================================================
