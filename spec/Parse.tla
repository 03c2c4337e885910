-------------------------------- MODULE Parse --------------------------------
(* What a scene file means.  A record holds a document (as written, numbers   *)
(* in thousandths, absent parts marked) and what the real parser made of it:  *)
(* rejected, or the scene it built.  The meaning of the document is computed  *)
(* here and the two must agree.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Recs == ndJsonDeserialize(IOEnv.RECS)
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == Abs(a - b) <= t

Names(s) == {s[i].name : i \in DOMAIN s}
Get(s, n) == s[CHOOSE i \in DOMAIN s : s[i].name = n]
MaxOf(s) == FoldLeft(LAMBDA m, x : IF x > m THEN x ELSE m, s[1], s)
SumOver(f, n) == FoldLeft(LAMBDA a, i : a + f[i], 0, [i \in 1..n |-> i])

(* ---- validity -------------------------------------------------------------- *)
ParentOf(d, n) == IF n.name = "world" THEN "" ELSE IF n.parent \in {"", "~"} THEN "world" ELSE n.parent
ParentsKnown(d) == \A i \in DOMAIN d.nodes : ParentOf(d, d.nodes[i]) \in Names(d.nodes) \cup {""}
RECURSIVE Reaches(_, _, _)
Reaches(d, name, k) == IF name = "world" THEN TRUE ELSE IF k = 0 THEN FALSE
                       ELSE Reaches(d, ParentOf(d, Get(d.nodes, name)), k - 1)
Valid(d) == /\ d.mutation = "none"
            /\ "world" \in Names(d.nodes)
            /\ ParentsKnown(d)
            /\ \A i \in DOMAIN d.nodes : Reaches(d, d.nodes[i].name, Len(d.nodes))
            /\ \A i \in DOMAIN d.nodes : Range(d.nodes[i].comps) \subseteq Names(d.components)
            /\ \A i \in DOMAIN d.recorders : d.recorders[i].node \in Names(d.nodes)
            /\ \A i \in DOMAIN d.nodes : d.nodes[i].dir # <<>> => \E k \in DOMAIN d.nodes[i].dir : d.nodes[i].dir[k] # 0

(* ---- spectra ---------------------------------------------------------------- *)
(* the table a spectrum stands for; a named one is sampled from min by spacing  *)
(* until max is covered, its values being those of the named data set           *)
Grid(s) == [i \in 1..((s.hi - s.lo + s.step - 1) \div s.step) + 1 |-> s.lo + (i - 1) * s.step]
\* the table with its x and y columns evaluated: done once per component or light
Table(s) == CASE s.form = "none" -> s
              [] s.form = "file" -> [form |-> "file", xs |-> s.xs, ys |-> s.ys, peak |-> TLCEval(MaxOf(s.ys))]
              [] OTHER -> LET xs == TLCEval(Grid(s)) raw == TLCEval([i \in DOMAIN xs |-> s.table[xs[i] - s.lo + 1]]) top == TLCEval(MaxOf(raw))
                          IN [form |-> "name", xs |-> xs, ys |-> TLCEval([i \in DOMAIN xs |-> (raw[i] * 1000) \div top]), peak |-> 1000]   \* normalised to a peak of one
Xs(s) == s.xs
Ys(s) == s.ys
At(xs, ys, x, hist) == LET i == CHOOSE j \in DOMAIN xs : xs[j] <= x /\ (j = Len(xs) \/ xs[j + 1] > x)
                       IN IF xs[i] = x \/ hist THEN ys[i] ELSE ys[i] + ((ys[i + 1] - ys[i]) * (x - xs[i])) \div (xs[i + 1] - xs[i])
(* attenuation at x nm, in thousandths *)
Attenuation(c, x) == IF c.spec.form = "none" THEN c.coef
                     ELSE LET y == At(Xs(c.spec), Ys(c.spec), x, c.hist) m == c.spec.peak
                          IN IF c.coef = -1 THEN y ELSE (y * c.coef) \div m
InTable(s, x) == s.form = "none" \/ (x >= Xs(s)[1] /\ x <= Xs(s)[Len(Xs(s))])
OnGrid(s, x) == s.form = "none" \/ x \in Range(Xs(s))
(* mean of a sampled spectrum, nm *)
MeanOf(s, hist) == LET xs == Xs(s) ys == Ys(s) n == Len(xs) off == xs[1]
                       w == TLCEval(IF hist THEN [i \in 1..n |-> ys[i]] ELSE [i \in 1..(n - 1) |-> ((ys[i] + ys[i + 1]) * (xs[i + 1] - xs[i])) \div 2])
                       v == IF hist THEN [i \in 1..n |-> w[i] * (xs[i] - off)] ELSE [i \in 1..(n - 1) |-> w[i] * ((xs[i] + xs[i + 1]) \div 2 - off)]
                   IN off + SumOver(v, Len(v)) \div (IF SumOver(w, Len(w)) = 0 THEN 1 ELSE SumOver(w, Len(w)))

(* ---- angular forms ------------------------------------------------------------ *)
Cos == (10 :> 985 @@ 20 :> 940 @@ 30 :> 866 @@ 45 :> 707 @@ 60 :> 500 @@ 75 :> 259 @@ 90 :> 0)
\* smallest possible z, mean of z squared, mean of z (2000 = not judged)
Angular(p) == CASE p.form = "isotropic" -> [lo |-> -1000, m2 |-> 333, m |-> 0]
                [] p.form = "lambertian" -> [lo |-> 0, m2 |-> 500, m |-> 667]
                [] p.form = "cone" -> [lo |-> Cos[p.v], m2 |-> 1000 - (1000000 - Cos[p.v] * Cos[p.v]) \div 2000, m |-> 2000]
                [] p.form = "hg" -> [lo |-> -1000, m2 |-> (1000 + (2 * p.v * p.v) \div 1000) \div 3, m |-> p.v]
(* v (scaled by 10^5) points along w (small integers) *)
Aligned(v, w) == /\ Near(v[2] * w[3], v[3] * w[2], 60) /\ Near(v[3] * w[1], v[1] * w[3], 60) /\ Near(v[1] * w[2], v[2] * w[1], 60)
                 /\ v[1] * w[1] + v[2] * w[2] + v[3] * w[3] > 0
AngularOk(p, o) == IF p.form = "point" THEN o.constant /\ Aligned(o.first, p.vec)
                   ELSE LET a == Angular(p)
                        IN /\ ~o.constant /\ o.unit
                           /\ o.lo >= a.lo - 2 /\ o.lo <= a.lo + 400
                           /\ Near(o.m2, a.m2, 75) /\ (a.m = 2000 \/ Near(o.m, a.m, 130))
(* ---- components ---------------------------------------------------------------- *)
Kind(k) == CASE k = "absorber" -> "Absorber" [] k = "scatterer" -> "Scatterer" [] k = "luminophore" -> "Luminophore"
ComponentClause(d, o) == LET c == TLCEval([d EXCEPT !.spec = Table(d.spec), !.espec = Table(d.espec)]) IN
  IF o.kind # Kind(c.kind) THEN "component-kind"
  ELSE IF ~(\A i \in DOMAIN o.probe : LET p == o.probe[i] IN
             IF ~InTable(c.spec, p[1]) THEN p[2] = -1
             ELSE (c.hist /\ ~OnGrid(c.spec, p[1]) /\ \E x \in Range(Xs(c.spec)) : Near(p[2], Attenuation(c, x), 3)) \/ (~(c.hist /\ ~OnGrid(c.spec, p[1])) /\ Near(p[2], Attenuation(c, p[1]), 3))) THEN "attenuation"
  ELSE IF c.kind = "absorber" THEN (IF o.qy = 0 THEN "ok" ELSE "quantum-yield")
  ELSE IF o.qy # (IF c.qy = -1 THEN 1000 ELSE c.qy) THEN "quantum-yield"
  ELSE IF ~AngularOk(IF c.phase.form = "none" THEN [form |-> "isotropic", v |-> 0] ELSE c.phase, o.phase) THEN "phase-function"
  ELSE IF c.kind = "luminophore" THEN
       (IF o.ems[1] < Xs(c.espec)[1] \/ o.ems[2] > Xs(c.espec)[Len(Xs(c.espec))] THEN "emission-range"
        ELSE IF c.hist # o.ongrid THEN "emission-hist"
        ELSE IF ~Near(o.ems[3], MeanOf(c.espec, c.hist), 13) THEN "emission-spectrum" ELSE "ok")
  ELSE "ok"

(* ---- lights ----------------------------------------------------------------------- *)
WavelengthClause(d, o) == LET l == TLCEval(IF d.mwl.form = "spectrum" THEN [d EXCEPT !.mwl.spec = Table(d.mwl.spec)] ELSE d) IN
  IF l.mwl.form \in {"number", "nanometers"} THEN (IF o.wl = <<l.mwl.v, l.mwl.v, l.mwl.v>> THEN "ok" ELSE "light-wavelength")
  ELSE IF l.mwl.form = "spectrum"
       THEN (IF o.wl[1] < Xs(l.mwl.spec)[1] \/ o.wl[2] > Xs(l.mwl.spec)[Len(Xs(l.mwl.spec))] \/ ~Near(o.wl[3], MeanOf(l.mwl.spec, FALSE), 19) THEN "light-spectrum" ELSE "ok")
  ELSE LET w == IF l.wl = -1 THEN 555 ELSE l.wl IN IF o.wl = <<w, w, w>> THEN "ok" ELSE "light-wavelength"
\* o.pos: largest |x|, |y|, |z|, radius; o.at: first position
Fills(m, e) == m <= e + 1 /\ m >= (e * 95) \div 100 - 1
PositionClause(l, o) ==
  IF (CASE l.pos.form = "none" -> o.pos = <<0, 0, 0, 0>>
        [] l.pos.form = "point" -> o.still /\ o.at = l.pos.dims
        [] l.pos.form = "rect" -> Fills(o.pos[1], l.pos.dims[1]) /\ Fills(o.pos[2], l.pos.dims[2]) /\ o.pos[3] = 0
                                  /\ (l.pos.dims[1] = l.pos.dims[2] => o.pos[4] > (115 * l.pos.dims[1]) \div 100)
        [] l.pos.form = "cube" -> \A k \in 1..3 : Fills(o.pos[k], l.pos.dims[k])
        [] l.pos.form = "circle" -> Fills(o.pos[4], l.pos.dims[1]) /\ o.pos[3] = 0 /\ o.pos[1] > (8 * l.pos.dims[1]) \div 10 /\ o.pos[2] > (8 * l.pos.dims[1]) \div 10)
  THEN "ok" ELSE "light-position"
DirectionClause(l, o) == IF AngularOk(IF l.dir.form = "none" THEN [form |-> "point", vec |-> <<0, 0, 1>>] ELSE l.dir, o.dir) THEN "ok" ELSE "light-direction"
LightClause(n, o) ==
  IF o.name # n.name THEN "light-name"
  ELSE LET w == WavelengthClause(n.light, o) p == PositionClause(n.light, o) d == DirectionClause(n.light, o)
       IN IF w # "ok" THEN w ELSE IF p # "ok" THEN p ELSE d

(* ---- recorders ---------------------------------------------------------------------- *)
H(p, a, b, n) == <<p, a, b, n, "", 0, 0, 0>>
WL == H("wavelength", 300000, 1000000, 100)
ANG == H("angle", 0, 1571, 18)
Clamp(x) == IF x < 10 THEN 10 ELSE IF x > 60 THEN 60 ELSE x
Bins(s) == Clamp((s * 10) \div 1000)
Map2(n, a, b) == LET ax == <<"x", "y", "z">> s == n.dims IN <<ax[a], -s[a] \div 2, s[a] \div 2, Bins(s[a]), ax[b], -s[b] \div 2, s[b] \div 2, Bins(s[b])>>
Face(n, label, facet, a, b) == [name |-> n.name \o "-" \o label, event |-> "escaping", facet |-> facet, atol |-> 1000, hists |-> {WL, ANG, Map2(n, a, b)}]
Auto(n) == {[name |-> n.name \o "-lost", event |-> "lost", facet |-> <<>>, atol |-> 1000, hists |-> {WL}]} \cup
  (IF n.geo = "box"
   THEN {Face(n, "top", <<0, 0, 1>>, 1, 2), Face(n, "bottom", <<0, 0, -1>>, 1, 2), Face(n, "east", <<1, 0, 0>>, 2, 3),
         Face(n, "west", <<-1, 0, 0>>, 2, 3), Face(n, "north", <<0, 1, 0>>, 1, 3), Face(n, "south", <<0, -1, 0>>, 1, 3)}
   ELSE {[name |-> n.name \o "-escaping", event |-> "escaping", facet |-> <<>>, atol |-> 1000, hists |-> {WL, ANG}]})
Plain(r) == [name |-> r.name, event |-> r.event, facet |-> r.facet, atol |-> IF r.atol = -1 THEN 1000 ELSE r.atol, hists |-> Range(r.hists)]
Expected(d, n) == {Plain(d.recorders[i]) : i \in {j \in DOMAIN d.recorders : d.recorders[j].node = n.name}} \cup
                  (IF n.record THEN {r \in Auto(n) : r.name \notin Names(d.recorders)} ELSE {})
RecordersOk(d, n, o) == /\ {Plain(o.recorders[i]) : i \in DOMAIN o.recorders} = Expected(d, n)
                        /\ Len(o.recorders) = Cardinality(Expected(d, n))

(* ---- poses --------------------------------------------------------------------------- *)
\* o.rot: the rotation's rows scaled by 10^4
Row(R, i) == R[i]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<(a[2] * b[3] - a[3] * b[2]) \div 10000, (a[3] * b[1] - a[1] * b[3]) \div 10000, (a[1] * b[2] - a[2] * b[1]) \div 10000>>
Rotation(R) == /\ \A i \in 1..3 : \A j \in 1..3 : Near(Dot(R[i], R[j]), IF i = j THEN 100000000 ELSE 0, 60000)
               /\ Near(Dot(Cross(R[1], R[2]), R[3]), 100000000, 90000)
Identity(R) == \A i \in 1..3 : \A j \in 1..3 : Near(R[i][j], IF i = j THEN 10000 ELSE 0, 0)
PoseClause(n, o) ==
  IF o.loc # (IF n.loc = <<>> THEN <<0, 0, 0>> ELSE n.loc) THEN "location"
  ELSE IF ~Rotation(o.rot) THEN "not-rigid"
  ELSE IF n.dir = <<>> THEN (IF Identity(o.rot) THEN "ok" ELSE "rotated-without-direction")
  ELSE IF Aligned(<<o.rot[1][3], o.rot[2][3], o.rot[3][3]>>, n.dir) THEN "ok" ELSE "direction"

(* ---- the whole ------------------------------------------------------------------------ *)
NodeClause(d, n, o) ==
  IF o.parent # ParentOf(d, n) THEN "parent"
  ELSE IF o.geo # n.geo THEN "geometry"
  ELSE IF n.geo # "light" /\ o.dims # n.dims THEN "dimensions"
  ELSE IF n.geo # "light" /\ o.index # n.index THEN "index"
  ELSE IF n.geo # "light" /\ o.surface # "fresnel" THEN "surface"
  ELSE IF n.geo # "light" /\ o.comps # n.comps THEN "components"
  ELSE IF n.geo # "light" /\ o.haslight THEN "unexpected-light"
  ELSE IF ~RecordersOk(d, n, o) THEN "recorders"
  ELSE IF PoseClause(n, o) # "ok" THEN PoseClause(n, o)
  ELSE IF n.geo = "light" THEN LightClause(n, o.light)
  ELSE "ok"
First(s) == LET bad == {i \in DOMAIN s : s[i] # "ok"} IN IF bad = {} THEN "ok" ELSE s[CHOOSE i \in bad : \A j \in bad : i <= j]
SceneClause(d, s) ==
  IF Names(s.nodes) # Names(d.nodes) \/ Len(s.nodes) # Len(d.nodes) THEN "nodes"
  ELSE IF s.root # "world" THEN "root"
  ELSE LET ns == First([i \in DOMAIN d.nodes |-> NodeClause(d, d.nodes[i], Get(s.nodes, d.nodes[i].name))])
           used == SelectSeq(d.components, LAMBDA c : \E i \in DOMAIN d.nodes : c.name \in Range(d.nodes[i].comps))
           cs == IF Names(s.components) # Names(used) THEN "components-built"
                 ELSE First([i \in DOMAIN used |-> ComponentClause(used[i], Get(s.components, used[i].name))])
       IN IF ns # "ok" THEN ns ELSE cs
Clause(r) == IF ~Valid(r.doc) THEN (IF r.accepted THEN "invalid-accepted" ELSE "ok")
             ELSE IF ~r.accepted THEN "valid-rejected"
             ELSE SceneClause(r.doc, r.scene)
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ PrintT(<<"V", i, Clause(Recs[i])>>) /\ i' = i + 1
==============================================================================
