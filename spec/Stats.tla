-------------------------------- MODULE Stats --------------------------------
(* Judges observed counts against the probabilities the laws prescribe.       *)
(* A record is [prop, kind, what, n, k, x]: of n trials k fell in the event    *)
(* described by kind and its parameters x (a sequence of integers).            *)
EXTENDS Physics, TLC, Json, IOUtils

RECS == ndJsonDeserialize(IOEnv.RECS)
VARIABLES h, done

Prob(r) ==
  LET x == r.x IN
  CASE r.kind = "frac"    -> x[1]
    [] r.kind = "fresnel" -> FresnelR(x[1], x[2], x[3])
    [] r.kind = "tir"     -> ONE
    [] r.kind = "beer"    -> ONE - ExpNeg(MulS(10 * x[1], 10 * x[2]))           \* absorbed within x2
    [] r.kind = "share"   -> DivS(x[1], x[2])
    [] r.kind = "decay"   -> ONE - ExpNeg(DivS(x[1], x[2]) \div 100)            \* delay below x1, lifetime x2
    [] r.kind = "iso"     -> IsoBelow(x[1])
    [] r.kind = "hg"      -> HGBelow(x[1], x[2])
    [] r.kind = "cone"    -> LET q == DivS(x[1], x[2]) IN MulS(q, q)             \* sin / sin max
    [] r.kind = "ball"    -> LET q == DivS(x[1], x[2]) IN MulS(q, MulS(q, q))
    [] r.kind = "emis"    ->                                                    \* below x2, absorbed at x1
         LET tot == Cum(r.tab, Len(r.tab))
             c1 == IF r.method = "full" THEN 0 ELSE CumAt(r.tab, Shift(r.method, x[1]))
             c2 == CumAt(r.tab, x[2])
         IN IF c2 <= c1 THEN 0 ELSE DivS(c2 - c1, tot - c1)
    [] r.kind = "spec"    -> DivS(CumAt(r.tab, x[1]), Cum(r.tab, Len(r.tab)))   \* sample below x1
    [] r.kind = "two"     -> DivS(x[1], x[2])                                   \* fraction of another sample
    [] OTHER -> -1
(* within 5.5 standard deviations, and one part in 10^4 for rounding          *)
Plausible(n, k, p, m) ==
  LET np == MulS(n, p)
      var == MulS(np, ONE - p)
      slack == 3 + n \div 10000
      dev == Max2(Abs(k - np) - slack, 0)
  IN dev <= 40000 /\ dev * dev <= 30 * m * Max2(var, 1)
Init == h \in 1..Len(RECS) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED h
        /\ LET r == RECS[h]  p == Prob(r) IN
           PrintT(<<"V", h, IF p < 0 \/ p > ONE + 1000 THEN "machinery"
                            ELSE IF Plausible(r.n, r.k, Min2(p, ONE), IF r.kind = "two" THEN 2 ELSE 1) THEN "ok"
                            ELSE r.prop \o "." \o r.what, r.n, r.k, p>>)
=============================================================================
