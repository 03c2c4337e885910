-------------------------------- MODULE Sampler --------------------------------
(* Judges the real samplers.  kind = "table": a distribution and its answers     *)
(* (1e6, in the table's own units); "rays": rays from a light by either way of   *)
(* emission, in the light's frame or under a pose of quarter turns and whole     *)
(* shifts; "refuse": arguments that have no meaning.                             *)
EXTENDS DistDef, Fixed, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
M == 1000000
\* ---- tables
Ratio(v, num, den) == LET q == (num * 1000) \div den  r == (num * 1000) % den IN Near(v, q * 1000 + (r * 1000) \div den, 3)
LookupOk(t, a) == Ratio(a.v, Cdf4(t, a.p), 4 * Total(t))
ValueOk(t, a) == Near(a.v, (Y4(t, a.p) * M) \div 4, 4)
DrawOk(t, a) ==  IF t.hist THEN a.v \in {t.x[k] * M : k \in a.may}     \* may: the points whose weight holds the probability
                 ELSE LET f == Flat(t, a.p) IN a.v >= (MinS(f) * (M \div 4)) - 4 /\ a.v <= (MaxS(f) * (M \div 4)) + 4
May(t, a) == \* probability (Area(k-1) + Area(k)) / 2 for quarter 2, Area(k) for quarter 0
   IF a.p[2] = 0 THEN {k \in DOMAIN t.y : Area(t, k - 1) <= Area(t, a.p[1]) /\ Area(t, a.p[1]) <= Area(t, k) /\ (t.y[k] > 0 \/ Area(t, a.p[1]) = 0)} ELSE {a.p[1]}      \* probability zero is not drawn: any leading point will do
TableClause(r) ==
  LET t == r.t
      bad == {k \in DOMAIN r.ans : LET a == r.ans[k] IN
                CASE a.what = "lookup" -> ~LookupOk(t, a)
                  [] a.what = "value" -> ~ValueOk(t, a)
                  [] a.what = "draw" -> ~DrawOk(t, IF t.hist THEN [what |-> a.what, p |-> a.p, v |-> a.v, may |-> May(t, a)] ELSE a)}
  IN IF bad = {} THEN "ok" ELSE "table-" \o r.ans[CHOOSE k \in bad : \A j \in bad : k <= j].what
\* ---- rays
UndoR(m, v) == <<m[1][1] * v[1] + m[1][2] * v[2] + m[1][3] * v[3], m[2][1] * v[1] + m[2][2] * v[2] + m[2][3] * v[3], m[3][1] * v[1] + m[3][2] * v[2] + m[3][3] * v[3]>>
Local(r, p) == UndoR(r.pose.r, <<p[1] - M * r.pose.t[1], p[2] - M * r.pose.t[2], p[3] - M * r.pose.t[3]>>)      \* columns of the rotation
Sq2(a) == MulS(a, a)
PlaceOk(r, q) == LET s == r.place IN
  CASE s.kind = "point" -> NearV(q, <<0, 0, 0>>, 2)
    [] s.kind = "rect" -> Abs(q[1]) <= s.a[1] + 2 /\ Abs(q[2]) <= s.a[2] + 2 /\ Abs(q[3]) <= 2
    [] s.kind = "circle" -> Sq2(q[1] * 10) + Sq2(q[2] * 10) <= Sq2(s.a[1] * 10) + 6 + s.a[1] \div 100000 /\ Abs(q[3]) <= 2
    [] s.kind = "cube" -> \A k \in 1..3 : Abs(q[k]) <= s.a[k] + 2
    [] OTHER -> FALSE
DirOk(r, d) == LET s == r.aim IN
  /\ Near(MulS(d[1], d[1]) + MulS(d[2], d[2]) + MulS(d[3], d[3]), ONE, 12)
  /\ CASE s.kind = "axis" -> NearV(d, <<0, 0, ONE>>, 3)
       [] s.kind = "cone" -> d[3] >= s.a - 200
       [] s.kind = "lambertian" -> d[3] >= -3
       [] OTHER -> TRUE
WaveOk(r, w) == w >= r.wave[1] - 1 /\ w <= r.wave[2] + 1
RayClause(r) ==
  IF \E k \in DOMAIN r.rays : ~r.rays[k].fine THEN "not-a-number"
  ELSE IF \E k \in DOMAIN r.rays : ~PlaceOk(r, Local(r, r.rays[k].p)) THEN "place-" \o r.place.kind
  ELSE IF \E k \in DOMAIN r.rays : ~DirOk(r, UndoR(r.pose.r, r.rays[k].d)) THEN "direction-" \o r.aim.kind
  ELSE IF \E k \in DOMAIN r.rays : ~WaveOk(r, r.rays[k].w) THEN "wavelength"
  ELSE IF \E k \in DOMAIN r.rays : r.rays[k].src # r.name THEN "name"
  ELSE "ok"
\* lights take turns
TurnClause(r) == IF \E k \in DOMAIN r.order : r.order[k] # r.lights[((k - 1 + r.first) % Len(r.lights)) + 1] THEN "turns"
                 ELSE IF Len(r.order) # r.n THEN "number" ELSE "ok"
Clause(r) == CASE r.kind = "table" -> TableClause(r) [] r.kind = "rays" -> RayClause(r) [] r.kind = "turns" -> TurnClause(r)
               [] r.kind = "fresh" -> IF r.repeated * 200 > r.n THEN "repeated-" \o r.what ELSE "ok"      \* continuous draws do not come twice (but for rounding)
               [] r.kind = "refuse" -> IF r.raised THEN "ok" ELSE "accepted-" \o r.what
Name(r) == LET c == Clause(r) IN IF c = "ok" THEN c ELSE "C26." \o c
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ PrintT(<<"V", i, Name(Recs[i])>>) /\ i' = i + 1
================================================================================
