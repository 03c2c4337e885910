------------------------------- MODULE LscTrace -------------------------------
(* Judges what a real LSC device did and reported.  A record: size (1e-6 cm),   *)
(* n0, n1 (1e-3), cells, mirror, gap ("none", "specular", "lambertian"), lights *)
(* and comps (names), hists: sequences of [e, p, d, w, src, al, t] (positions   *)
(* and path lengths 1e-6 cm, directions 1e6, wavelength 1e-3 nm, al: absorption *)
(* coefficient of the luminophores at that wavelength, 1e-3/cm), and what was   *)
(* answered.                                                                    *)
EXTENDS LscDef, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
AbsI(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == AbsI(a - b) <= t
Rng(s) == {s[k] : k \in DOMAIN s}
M == 1000000
\* ---- where
AxisName == << <<"left", "right">>, <<"near", "far">>, <<"bottom", "top">> >>
Half(r, k) == r.size[k] \div 2
Touch(r, p) == {k \in 1..3 : Near(AbsI(p[k]), Half(r, k), 1)}
Within(r, p, t) == \A k \in 1..3 : AbsI(p[k]) <= Half(r, k) + t
FacetOf(r, p) == IF ~Within(r, p, 1) \/ Touch(r, p) = {} THEN "other"
                 ELSE IF Cardinality(Touch(r, p)) > 1 THEN "edge"
                 ELSE LET k == CHOOSE k \in Touch(r, p) : TRUE IN AxisName[k][IF p[k] < 0 THEN 1 ELSE 2]
Tag(r, x) == [e |-> x.e, f |-> IF x.e \in Surface THEN FacetOf(r, x.p) ELSE "", src |-> x.src, w |-> x.w]
Tagged(r) == [k \in DOMAIN r.hists |-> [j \in DOMAIN r.hists[k] |-> Tag(r, r.hists[k][j])]]
Edgy(hs) == \E k \in DOMAIN hs : \E j \in DOMAIN hs[k] : hs[k][j].f = "edge"
\* ---- the reports
RatioOk(v, a, b) == b = 0 \/ AbsI(v * b - a * M) <= 2 * b      \* v: 1e6; counts are small
Sound(h) == Len(h) > 1 /\ h[Len(h)].e \in {"kill", "nonradiative", "react", "exit"} /\ Len(Seen(h)) > 1
RECURSIVE Total(_, _)
Total(s, k) == IF k > Len(s) THEN 0 ELSE s[k] + Total(s, k + 1)
Reports(r) ==
  LET hs == TLCEval(Tagged(r)) IN
  IF Len(hs) # Total(r.calls, 1) THEN "thrown"
  ELSE IF Edgy(hs) THEN "ok"
  ELSE IF \E k \in DOMAIN hs : ~Sound(hs[k]) THEN "machinery"
  ELSE LET rows == TLCEval(RowsOf(hs, 1)) lights == Rng(r.lights) comps == Rng(r.comps) all == lights \cup comps cells == Rng(r.cells)
           wrong == {k \in DOMAIN r.asked : LET a == Answer(r.asked[k].q, rows, all) IN ~SameBag([j \in DOMAIN a |-> a[j].w], r.asked[k].ans)}
           inc == Incident(rows, lights) col == Collected(rows, cells, comps) esc == Escaped(rows, cells, comps) lost == LostOf(rows, all)
       IN IF wrong # {} THEN "spectrum-" \o r.asked[CHOOSE k \in wrong : \A j \in wrong : k <= j].q.kind
          ELSE IF \E f \in Facets : \E c \in Columns : r.counts[c][f] # CountOf(rows, c, f, lights, comps) THEN "counts"
          ELSE IF ~r.told THEN (IF inc > 0 /\ col + esc > 0 THEN "no-summary" ELSE "ok")
          ELSE IF r.sum.incident # inc THEN "incident"
          ELSE IF ~RatioOk(r.sum.optical, col, inc) THEN "optical-efficiency"
          ELSE IF ~RatioOk(r.sum.waveguide, col, col + esc) THEN "waveguide-efficiency"
          ELSE IF ~RatioOk(r.sum.lost, lost, inc) THEN "loss"
          ELSE IF Rng(r.sum.cells) # cells \/ Rng(r.sum.comps) # comps \/ Rng(r.sum.lights) # lights \/ r.sum.n # r.n1 THEN "summary-names"
          ELSE IF LET l == r.size[1] \div 10000  w == r.size[2] \div 10000  d == r.size[3] \div 10000  den == 2 * d * (l + w)      \* geometric gain: l w / 2 d (l + w)
                  IN AbsI(l * w * 1000 - den * r.sum.gain) > den THEN "geometric-concentration"
          ELSE IF r.progress # [k \in 1..Len(r.progress) |-> k] \/ Len(r.progress) # r.calls[Len(r.calls)] THEN "progress"
          ELSE "ok"
\* ---- the device itself
Axis(r, p) == CHOOSE k \in Touch(r, p) : TRUE
Flip(d, k) == [d EXCEPT ![k] = -@]
NearD(a, b, t) == \A k \in 1..3 : Near(a[k], b[k], t)
Sq(x) == (x \div 100) * (x \div 100)       \* 1e8
Cross(r, x, before) ==
  LET f == FacetOf(r, x.p) din == before.d dout == x.d IN
  IF f = "edge" THEN "ok"
  ELSE IF f = "other" THEN
     (IF r.gap = "none" THEN "surface-where-none-is"
      ELSE IF x.e # "reflect" THEN "air-gap-mirror-transmits"
      ELSE IF r.gap = "specular" /\ ~\E k \in 1..3 : NearD(dout, Flip(din, k), 4) THEN "air-gap-mirror-direction"
      ELSE IF r.gap = "lambertian" /\ dout[3] <= 0 THEN "air-gap-mirror-direction" ELSE "ok")
  ELSE LET k == Axis(r, x.p) s == IF x.p[k] > 0 THEN 1 ELSE -1
           leaving == din[k] * s > 0 ni == IF leaving THEN r.n1 ELSE r.n0 nt == IF leaving THEN r.n0 ELSE r.n1
           t2 == M * 100 - Sq(din[k])         \* tangential part squared, 1e8
           tir == (t2 \div 10000) * ((ni * ni) \div 1000) > (10000 + 20) * ((nt * nt) \div 1000)
       IN IF f \in Rng(r.cells) THEN (IF x.e # "transmit" THEN "cell-reflects" ELSE IF ~NearD(din, dout, 4) THEN "cell-bends" ELSE "ok")
          ELSE IF f = "bottom" /\ r.mirror /\ x.e # "reflect" THEN "back-mirror-transmits"
          ELSE IF x.e = "reflect" THEN (IF NearD(dout, Flip(din, k), 4) THEN "ok" ELSE "reflection-direction")
          ELSE IF tir THEN "escapes-beyond-critical-angle"
          ELSE IF \E j \in 1..3 \ {k} : ~Near((nt * dout[j]) \div 2, (ni * din[j]) \div 2, 6000) THEN "refraction"
          ELSE IF din[k] * s > 0 /\ dout[k] * s < -3 THEN "refraction" ELSE IF din[k] * s < 0 /\ dout[k] * s > 3 THEN "refraction" ELSE "ok"
LightOk(r, x) ==
  IF x.src \notin Rng(r.lights) THEN "light-name"
  ELSE LET g == r.gen[x.src] IN
     IF \E k \in 1..3 : x.p[k] < g.lo[k] - 2 \/ x.p[k] > g.hi[k] + 2 THEN "light-place"
     ELSE IF x.w < g.w[1] \/ x.w > g.w[2] THEN "light-wavelength"
     ELSE LET c == (x.d[1] \div 100) * (g.axis[1] \div 100) + (x.d[2] \div 100) * (g.axis[2] \div 100) + (x.d[3] \div 100) * (g.axis[3] \div 100)
          IN IF c \div 100 < g.cos - 400 THEN "light-direction" ELSE "ok"
Middle(a, b) == [k \in 1..3 |-> (a[k] + b[k]) \div 2]
StepClause(r, h, j) ==
  LET x == h[j] b == h[j - 1] IN
  CASE x.e \in Surface -> Cross(r, x, b)
    [] x.e \in {"absorb", "scatter", "emit", "nonradiative", "react"} ->
         IF ~Within(r, x.p, 1) THEN "event-outside"
         ELSE IF x.e = "emit" /\ x.src \notin Rng(r.dyes) THEN "emitter-name"
         ELSE IF x.e = "emit" /\ (x.w < r.emits[1] \/ x.w > r.emits[2]) THEN "emitted-range"
         ELSE IF x.e = "emit" /\ r.method = "redshift" /\ x.w < b.w - 10 THEN "emitted-bluer"
         ELSE IF x.e = "scatter" /\ x.src \notin Rng(r.dust) THEN "scatterer-name"
         ELSE IF x.e \notin {"emit", "scatter"} /\ x.src # b.src THEN "origin" ELSE "ok"
    [] OTHER -> IF x.src # b.src THEN "origin" ELSE "ok"
FirstBad(s) == IF \E k \in DOMAIN s : s[k] # "ok" THEN s[CHOOSE k \in DOMAIN s : s[k] # "ok" /\ \A j \in 1..(k - 1) : s[j] = "ok"] ELSE "ok"
HistClause(r, h) == LET g == IF h[1].e # "generate" THEN "no-start" ELSE LightOk(r, h[1])
                    IN IF g # "ok" THEN g ELSE FirstBad([j \in 1..(Len(h) - 1) |-> StepClause(r, h, j + 1)])
\* ---- the layers: how often things happen inside, against the coefficients asked for (1e-3/cm)
RECURSIVE Walk(_, _, _, _)        \* path inside in 1e-4 cm, and path times luminophore coefficient in 1e-4 events
Walk(r, h, j, acc) == IF j > Len(h) THEN acc
  ELSE LET len == (h[j].t - h[j - 1].t) \div 100 inside == Within(r, Middle(h[j].p, h[j - 1].p), -1) /\ len > 0
       IN Walk(r, h, j + 1, IF inside THEN [len |-> acc.len + len, dye |-> acc.dye + ((len * (h[j - 1].al \div 10)) \div 100)] ELSE acc)
RECURSIVE WalkAll(_, _, _)
WalkAll(r, k, acc) == IF k > Len(r.hists) THEN acc ELSE WalkAll(r, k + 1, Walk(r, r.hists[k], 2, acc))
Happened(r, es) == Cardinality({<<k, j>> \in (1..Len(r.hists)) \X (1..r.longest) : j <= Len(r.hists[k]) /\ r.hists[k][j].e \in es})
Times(r, n, e4) == LET a == e4 \div 10000 IN AbsI(n - a) <= 1 \/ (AbsI(n - a) - 1) * (AbsI(n - a) - 1) <= 40 * (a + 2)      \* e4: expected events, 1e-4
Layers(r) ==
  LET tot == TLCEval(WalkAll(r, 1, [len |-> 0, dye |-> 0]))
      per(c) == ((tot.len \div 100) * c) \div 10      \* expected events (1e-4) for a coefficient of c (1e-3/cm)
      dye == tot.dye
      em == (dye \div 100) * (r.qy \div 10)                                         \* qy: 1e-3
  IN IF ~r.steady THEN "ok"
     ELSE IF ~Times(r, Happened(r, {"scatter"}), per(r.scat)) THEN "scattering-rate"
     ELSE IF ~Times(r, Happened(r, {"emit"}), em) THEN "emission-rate"
     ELSE IF ~Times(r, Happened(r, {"nonradiative", "react"}), per(r.absb) + dye - em) THEN "loss-rate"
     ELSE "ok"
\* ---- the lambertian mirror: cos of the angle averages 2/3, its square 1/2
Lamb(r) ==
  LET hits == {<<k, j>> \in (1..Len(r.hists)) \X (2..r.longest) : j <= Len(r.hists[k]) /\ r.hists[k][j].e = "reflect" /\ FacetOf(r, r.hists[k][j].p) = "other"}
      c(x) == r.hists[x[1]][x[2]].d[3] \div 1000
      n == Cardinality(hits)
      below(v) == Cardinality({x \in hits : c(x) < v})        \* P(cos < v) = v^2
      fine(v) == LET e == (n * v * v) \div 1000000 dev == AbsI(below(v) - e) IN dev <= 2 \/ (dev - 2) * (dev - 2) * 4 <= 40 * n
  IN IF r.gap # "lambertian" \/ n = 0 \/ (fine(707) /\ fine(500) /\ fine(866)) THEN "ok" ELSE "air-gap-mirror-not-lambertian"
Device(r) == IF r.kind # "real" THEN "ok"
             ELSE LET g == FirstBad([k \in DOMAIN r.hists |-> HistClause(r, r.hists[k])])
                  IN IF g # "ok" THEN g ELSE IF Layers(r) # "ok" THEN Layers(r) ELSE Lamb(r)
Clause(r) == CASE r.kind = "refuse" -> IF r.raised THEN "ok" ELSE "accepted-" \o r.what
               [] OTHER -> LET a == Reports(r) IN IF a # "ok" THEN a ELSE Device(r)
Name(r) == LET c == Clause(r) IN IF c \in {"ok", "machinery"} THEN c ELSE "C25." \o c
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ PrintT(<<"V", i, Name(Recs[i])>>) /\ i' = i + 1
===============================================================================
