------------------------------- MODULE Physics -------------------------------
(* The laws a ray obeys, in fixed point (see Fixed for the units):           *)
(* Fresnel and Snell, tabulated spectra, emission spectra and methods,       *)
(* Beer-Lambert and exponential lifetimes, phase functions.                  *)
EXTENDS Fixed

(* ---- surfaces: unpolarised Fresnel reflectance at |cos| c; indices 1e6 ---- *)
SinT2(c, n1, n2) == LET q == DivS(n1, n2)  s == ONE - MulS(c, c) IN
  IF q <= 4 * ONE THEN MulS(MulS(q, q), s)
  ELSE IF MulS(q, s) > 2 * ONE THEN 8 * ONE ELSE MulS(q, MulS(q, s))      \* far beyond total reflection; 32-bit integers
FresnelR(c, n1, n2) ==
  LET k == SqrtS(ONE - SinT2(c, n1, n2))
      a == MulS(n1 * 10, c)  b == MulS(n2 * 10, k)      \* scale 1e7
      f == MulS(n1 * 10, k)  g == MulS(n2 * 10, c)
      rs == DivS(a - b, a + b)  rp == DivS(f - g, f + g)
  IN (MulS(rs, rs) + MulS(rp, rp)) \div 2

(* Total internal reflection, with a band where neither answer is judged       *)
TIR(c, n1, n2)   == n2 < n1 /\ SinT2(c, n1, n2) > ONE + 20000
NoTIR(c, n1, n2) == n2 >= n1 \/ SinT2(c, n1, n2) < ONE - 20000

(* ---- spectra -------------------------------------------------------------- *)
RECURSIVE TabAt(_, _, _)
TabAt(t, w, k) ==   \* linear interpolation, edge clamped
  IF w <= t[1][1] THEN t[1][2]
  ELSE IF k = Len(t) THEN t[k][2]
  ELSE IF w <= t[k + 1][1]
       THEN t[k][2] + MulS(t[k + 1][2] - t[k][2], DivS(w - t[k][1], t[k + 1][1] - t[k][1]))
       ELSE TabAt(t, w, k + 1)

(* ---- emission -------------------------------------------------------------- *)
KT == 31272576     \* 1.5 kT / 1240 per nm, see design notes
Shift(method, w) == IF method = "kT" THEN DivS(w, ONE + MulS(w, KT)) ELSE w
Cum(m, k) == \* cumulative trapezoid weight up to grid point k
  LET f[j \in 1..k] == IF j = 1 THEN 0 ELSE f[j - 1] + ((m[j - 1][2] + m[j][2]) \div 2) \div 4 IN f[k]
CumAt(m, w) ==
  IF w <= m[1][1] THEN 0 ELSE
  IF w >= m[Len(m)][1] THEN Cum(m, Len(m)) ELSE
  LET k == CHOOSE j \in 1..(Len(m) - 1) : m[j][1] <= w /\ w < m[j + 1][1]
      a == Cum(m, k)  b == Cum(m, k + 1)
  IN a + MulS(b - a, DivS(w - m[k][1], m[k + 1][1] - m[k][1]))

(* ---- exponentials: exp(-x), x at scale 1e6 (0 <= x <= 20), result at 1e8 -- *)
RECURSIVE ExpTaylor(_, _, _, _)
ExpTaylor(y, term, k, acc) ==     \* y at 1e8, y <= 1/8
  IF k > 8 THEN acc ELSE LET t == MulS(term, y) \div k IN ExpTaylor(y, -t, k + 1, acc - t)
RECURSIVE ExpNeg(_)
ExpNeg(x) ==
  IF x <= 0 THEN ONE
  ELSE IF x >= 20000000 THEN 0
  ELSE IF x <= 125000 THEN ExpTaylor(100 * x, ONE, 1, ONE)
  ELSE LET h == x \div 2  e == ExpNeg(h) IN
       IF x % 2 = 0 THEN MulS(e, e) ELSE MulS(MulS(e, e), ONE - 100)

(* ---- phase functions: probability that cos(theta) < mu ---------------------- *)
IsoBelow(mu) == (ONE + mu) \div 2
HGBelow(g, mu) ==      \* g # 0
  LET g2 == MulS(g, g)
      root == SqrtS(ONE + g2 - 2 * MulS(g, mu))
      inv(x) == DivS(ONE, x)
  IN MulS(DivS(ONE - g2, 2 * g), inv(root) - inv(ONE + g))
=============================================================================
