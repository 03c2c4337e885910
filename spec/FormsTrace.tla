------------------------------- MODULE FormsTrace -------------------------------
(* Judges components built for real.  A record: the case of Forms, t and e (the   *)
(* tables given), c (the number given, 1e6), q, rad, nr (yield, lifetimes), got   *)
(* ("built" or the exception), names, answers and delays (1e-15 s, for draws one  *)
(* lifetime deep).                                                               *)
EXTENDS DistDef, Fixed, TLC, Json, IOUtils
F == INSTANCE Forms WITH case <- 0, told <- 0
Recs == ndJsonDeserialize(IOEnv.RECS)
M == 1000000
ValueOk(t, a) == Near(a.v, (Y4(t, a.p) * M) \div 4, 4)
DrawOk(t, a) == LET f == Flat(t, a.p) IN a.v >= (MinS(f) * (M \div 4)) - 4 /\ a.v <= (MaxS(f) * (M \div 4)) + 4
\* a draw in the middle of a histogram's weight gives its point
AnsOk(r, a) == CASE a.what = "constant" -> Near(a.v, r.c, 1 + r.c \div M)
                 [] a.what = "value" -> ValueOk(r.t, a)
                 [] a.what = "outside" -> a.v = 1
                 [] a.what = "draw" -> IF r.e.hist THEN a.v = r.e.x[a.p[1]] * M ELSE DrawOk(r.e, a)
                 [] a.what = "median" -> Near(a.v, 600 * M, M)         \* the default emission is centred on 600 nm
                 [] a.what = "spread" -> Near(a.v, 36250000, M)      \* half the distance of its tenth and ninetieth percentiles, width 40 nm
Middle(r) == F!YieldOf(r.yield, r.q, r.rad, r.nr)
Lights(r) == CASE F!Ends(r.cls) -> <<FALSE, FALSE>>
               [] Middle(r) = 0 -> <<FALSE, FALSE>> [] Middle(r) = 1000 -> <<TRUE, TRUE>> [] OTHER -> <<TRUE, FALSE>>
Delay(r, what) == CASE what = "rad" -> IF r.cls = "Luminophore" /\ F!HasRad(r.yield) THEN r.rad ELSE 0
                    [] OTHER -> IF F!HasNr(r.yield) THEN r.nr ELSE 0
Clause(r) ==
  LET want == F!Built([cls |-> r.cls, coef |-> r.coef, em |-> r.em, hist |-> r.hist, yield |-> r.yield])
      bad == {k \in DOMAIN r.ans : ~AnsOk(r, r.ans[k])}
  IN IF want # (r.got = "built") THEN (IF want THEN "refused-" ELSE "accepted-") \o r.cls \o "-" \o r.coef \o "-" \o r.em \o "-" \o r.yield
     ELSE IF ~want THEN (IF r.got = "ValueError" THEN "ok" ELSE "wrong-error-" \o r.got)
     ELSE IF bad # {} THEN "answer-" \o r.ans[CHOOSE k \in bad : \A j \in bad : k <= j].what
     ELSE IF r.name # r.asked \/ (r.source # "" /\ r.source # r.asked) THEN "name"
     ELSE IF r.lit # Lights(r) THEN "yield"
     ELSE IF ~Near(r.delays[1], Delay(r, "rad") * M, 10 + r.rad) THEN "radiative-delay"
     ELSE IF ~Near(r.delays[2], Delay(r, "nr") * M, 10 + r.nr) THEN "nonradiative-delay"
     ELSE IF r.kept # TRUE THEN "other-state-changed"
     ELSE "ok"
Name(r) == LET c == Clause(r) IN IF c = "ok" THEN c ELSE "C28." \o c
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ PrintT(<<"V", i, Name(Recs[i])>>) /\ i' = i + 1
================================================================================
