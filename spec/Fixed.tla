------------------------------- MODULE Fixed -------------------------------
(* Fixed-point arithmetic for TLC's 32-bit integers.                        *)
(* Units: directions, matrices and probabilities are scaled by 1e8 ("unit"),*)
(* lengths by 1e6.  MulS(a,b) = a*b/1e8 without overflow for |a|,|b| < 2e8. *)
EXTENDS Integers, Sequences

ONE == 100000000
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

MulS(a, b) ==
  LET a1 == a \div 10000  a0 == a % 10000
      b1 == b \div 10000  b0 == b % 10000
  IN a1 * b1 + (a1 * b0 + a0 * b1) \div 10000

(* a/b scaled by 1e8, for |a| <= ~ 20*b, 0 < b < 2^31/10                    *)
RECURSIVE DivDigits(_, _, _, _)
DivDigits(acc, rem, b, k) ==
  IF k = 0 THEN acc
  ELSE DivDigits(acc * 10 + (rem * 10) \div b, (rem * 10) % b, b, k - 1)
DivPos(a, b) == DivDigits(a \div b, a % b, b, 8)
DivS(a, b) ==
  LET q == DivPos(Abs(a), Abs(b))
  IN IF (a < 0) # (b < 0) THEN -q ELSE q

(* a*b/c for non-negative ints, a < c (a fraction), result < 2^31           *)
RECURSIVE MDiv(_, _, _, _)
MDiv(a, b, c, k) ==  \* b * (a/c) by repeated doubling; k bits
  IF k = 0 THEN 0
  ELSE LET t == a * 2
       IN IF t >= c THEN (b \div 2) + MDiv(t - c, b \div 2, c, k - 1) + 0
          ELSE MDiv(t, b \div 2, c, k - 1)

(* square root at scale 1e8 by bisection: y with y*y ~ x                    *)
RECURSIVE SqrtB(_, _, _, _)
SqrtB(x, lo, hi, k) ==
  IF k = 0 \/ hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF MulS(m, m) <= x THEN SqrtB(x, m, hi, k - 1) ELSE SqrtB(x, lo, m, k - 1)
SqrtS(x) == IF x <= 0 THEN 0 ELSE SqrtB(x, 0, IF x <= ONE THEN ONE + 1 ELSE 2 * ONE, 30)

(* integer square root                                                      *)
RECURSIVE ISqrtB(_, _, _)
ISqrtB(x, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF m * m <= x THEN ISqrtB(x, m, hi) ELSE ISqrtB(x, lo, m)
ISqrt(x) == IF x <= 0 THEN 0 ELSE ISqrtB(x, 0, 46341)

Dot(a, b) == MulS(a[1], b[1]) + MulS(a[2], b[2]) + MulS(a[3], b[3])
Scale(s, v) == <<MulS(s, v[1]), MulS(s, v[2]), MulS(s, v[3])>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Neg(a) == <<-a[1], -a[2], -a[3]>>
Near(a, b, tol) == Abs(a - b) <= tol
NearV(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol) /\ Near(a[3], b[3], tol)
MatVec(M, v) == <<Dot(M[1], v), Dot(M[2], v), Dot(M[3], v)>>
(* transpose product: M is a rotation, rows M[1..3]                         *)
MatTVec(M, v) ==
  <<MulS(M[1][1], v[1]) + MulS(M[2][1], v[2]) + MulS(M[3][1], v[3]),
    MulS(M[1][2], v[1]) + MulS(M[2][2], v[2]) + MulS(M[3][2], v[3]),
    MulS(M[1][3], v[1]) + MulS(M[2][3], v[2]) + MulS(M[3][3], v[3])>>
Range(f) == { f[x] : x \in DOMAIN f }
=============================================================================
