------------------------------- MODULE MeshTrace -------------------------------
(* Judges what a closed mesh, and a ray traced through scenes of meshes, report  *)
(* against Cells.  One cell of size 60 is 600000 in reported lengths, so a       *)
(* whole-number coordinate is 10000.  Directions and normals are scaled by 1e8.  *)
(* ask: o, d whole numbers; per solid contains/surface; hits in reported order   *)
(*      [n, p, nrm, surface, inside, below, above, entering].                    *)
(* trace: a history [k, p, d, con, adj, hit, nrm], 0 the world; solids are       *)
(*      nested, a later one inside an earlier one; index per solid (x1000).      *)
EXTENDS Fixed, TLC, Json, IOUtils, FiniteSets, Cells
Recs == ndJsonDeserialize(IOEnv.RECS)
U == 10000
Margin == 1200
SolidOf(x) == [s |-> x.s, cells |-> {<<c[1], c[2], c[3]>> : c \in Range(x.cells)}]
\* ---------------------------------------------------------------- asked of the shape and of the scene
PointC(S, o, d, x) == [b \in 1..3 |-> IF b = x[1] THEN x[2] * S.s * U ELSE LET v == AtC(S, o, d, x, b) n == Den(d, x) IN (v \div n) * U + ((v % n) * U) \div n]
AtO(r, h) == NearV(h.p, <<r.o[1] * U, r.o[2] * U, r.o[3] * U>>, 3)
FaceNormal(S, o, d, x) == [b \in 1..3 |-> IF b = x[1] THEN OutC(S, o, d, x) * ONE ELSE 0]
HitOk(S, r, h, x) ==
  IF ~NearV(h.nrm, FaceNormal(S, r.o, r.d, x), 200) THEN "normal"
  ELSE IF ~h.surface THEN "hit-not-on-surface"
  ELSE IF ~h.below THEN "below-not-inside"
  ELSE IF ~h.above THEN "above-not-outside"
  ELSE IF h.entering # (OutC(S, r.o, r.d, x) * r.d[x[1]] < 0) THEN "entering"
  ELSE "ok"
RECURSIVE FirstBad(_, _)
FirstBad(f, n) == IF n > Len(f) THEN "ok" ELSE IF f[n] # "ok" THEN f[n] ELSE FirstBad(f, n + 1)
AskClause(r) ==
  LET Ss == TLCEval([n \in DOMAIN r.solids |-> SolidOf(r.solids[n])])
      one(n) == LET S == Ss[n] cs == CrossC(S, r.o, r.d)
                    hs == SelectSeq(r.hits, LAMBDA h : h.n = n /\ ~AtO(r, h))
                    match(x) == {k \in DOMAIN hs : NearV(hs[k].p, PointC(S, r.o, r.d, x), 6)}
                IN IF r.contains[n] # (SideC(S, r.o) = -1) /\ SideC(S, r.o) # 0 THEN "contains"
                   ELSE IF r.surface[n] # (SideC(S, r.o) = 0) /\ (r.exact \/ r.surface[n]) THEN "on-surface"
                   ELSE IF Delicate(S, r.o, r.d) THEN "ok"
                   ELSE IF \E x \in cs : Cardinality(match(x)) = 0 THEN "missed"
                   ELSE IF \E x \in cs : Cardinality(match(x)) > 1 THEN "repeated"
                   ELSE IF Len(hs) # Cardinality(cs) THEN "invented"
                   ELSE IF ~r.detail THEN "ok"
                   ELSE LET f == [k \in DOMAIN hs |-> LET x == CHOOSE y \in cs : k \in match(y) IN HitOk(S, r, hs[k], x)] IN FirstBad(f, 1)
      dist(h) == LET a == CHOOSE a \in 1..3 : \A b \in 1..3 : AbsC(r.d[a]) >= AbsC(r.d[b]) IN SgnC(r.d[a]) * (h.p[a] - r.o[a] * U)
  IN LET f == [n \in DOMAIN r.solids |-> one(n)] IN
     IF FirstBad(f, 1) # "ok" THEN FirstBad(f, 1)
     ELSE IF \E k \in 1..(Len(r.hits) - 1) : dist(r.hits[k]) > dist(r.hits[k + 1]) + 2 THEN "order"
     ELSE "ok"
\* ---------------------------------------------------------------- a traced history
Mod(x, m) == x % m
FromPlane(S, v) == LET m == Mod(v, S.s * U) IN Min2(m, S.s * U - m)
InP(S, p) == <<p[1] \div (S.s * U), p[2] \div (S.s * U), p[3] \div (S.s * U)>> \in S.cells
NearPlane(S, p, tol) == \E a \in 1..3 : FromPlane(S, p[a]) <= tol
Container(Ss, p) == LET I == {n \in DOMAIN Ss : InP(Ss[n], p)} IN IF I = {} THEN 0 ELSE CHOOSE n \in I : \A m \in I : m <= n
\* the line from p along d passes a lattice edge of S so closely that which side is rounding
CloseLine(S, p, d) ==
  LET ks(a) == UNION {{c[a], c[a] + 1} : c \in S.cells}
      near(a, b) == d[a] # 0 /\ AbsC(d[b]) <= AbsC(d[a]) /\
                    LET g == DivS(d[b], d[a]) IN \E k \in ks(a) : FromPlane(S, p[b] + MulS(g, k * S.s * U - p[a])) <= Margin
      still(a) == AbsC(d[a]) < 1000 /\ FromPlane(S, p[a]) <= Margin
  IN \/ \E a, b \in 1..3 : a # b /\ near(a, b)
     \/ \E a \in 1..3 : still(a)
Delic(Ss, p, d) == \E n \in DOMAIN Ss : CloseLine(Ss[n], p, d)
Side1(e, q) == [b \in 1..3 |-> e.p[b] + q * MulS(e.nrm[b], 3000)]
\* event e after a leg along d0 from p0
Leg(Ss, e, p0) ==
  LET at(k) == [b \in 1..3 |-> p0[b] + ((e.p[b] - p0[b]) \div 9) * k]
  IN \A k \in 1..8 : (\A n \in DOMAIN Ss : ~NearPlane(Ss[n], at(k), 800)) => Container(Ss, at(k)) = e.con
EventClause(Ss, ix, e, f) ==   \* f the event before
  IF ~Leg(Ss, e, f.p) THEN "container"
  ELSE IF e.k = "EXIT" THEN "ok"
  ELSE IF e.k \notin {"REFLECT", "TRANSMIT"} THEN "event"
  ELSE IF e.hit = 0 THEN "hit"
  ELSE LET S == Ss[e.hit]
           A == {a \in 1..3 : Near(AbsC(e.nrm[a]), ONE, 300)}
       IN IF A = {} THEN "normal-axis"
          ELSE LET a == CHOOSE a \in A : TRUE
                   up == Side1(e, 1) down == Side1(e, -1)
                   dn == f.d[a] * SgnC(e.nrm[a])
                   n1 == IF e.con = 0 THEN 1000 ELSE ix[e.con]
                   n2 == IF e.adj = 0 THEN 1000 ELSE ix[e.adj]
               IN IF FromPlane(S, e.p[a]) > 60 THEN "off-surface"
                  ELSE IF \E b \in Rest(a) : AbsC(e.nrm[b]) > 300 THEN "normal"
                  ELSE IF ~(InP(S, down) /\ ~InP(S, up)) THEN "normal-side"
                  ELSE IF e.con # Container(Ss, IF dn < 0 THEN up ELSE down) THEN "container-side"
                  ELSE IF e.adj # Container(Ss, IF dn < 0 THEN down ELSE up) THEN "adjacent"
                  ELSE IF e.k = "REFLECT"
                       THEN IF n1 = n2 THEN "reflected-at-nothing"
                            ELSE IF \A b \in 1..3 : Near(e.d[b], IF b = a THEN -f.d[b] ELSE f.d[b], 300) THEN "ok" ELSE "mirror"
                       ELSE IF e.d[a] * SgnC(f.d[a]) <= 0 THEN "across"
                       ELSE IF \E b \in Rest(a) : ~Near((e.d[b] \div 1000) * n2, (f.d[b] \div 1000) * n1, 4 * n2 + 4 * n1) THEN "snell"
                       ELSE "ok"
RECURSIVE Walk(_, _, _, _)
Walk(Ss, ix, h, j) ==
  IF j > Len(h) THEN "ok"
  ELSE LET f == h[j - 1] IN
       IF Delic(Ss, f.p, f.d) THEN "ok"
       ELSE LET c == EventClause(Ss, ix, h[j], f) IN IF c # "ok" THEN c ELSE Walk(Ss, ix, h, j + 1)
Ending(r) == LET last == r.hist[Len(r.hist)].k IN last = "EXIT" \/ (last = "KILL" /\ Len(r.hist) >= r.maxsteps)
RECURSIVE Calm(_, _, _)
Calm(Ss, h, j) == j > Len(h) \/ (~Delic(Ss, h[j - 1].p, h[j - 1].d) /\ Calm(Ss, h, j + 1))
TraceClause(r) ==
  LET Ss == TLCEval([n \in DOMAIN r.solids |-> SolidOf(r.solids[n])])
      h == SelectSeq(r.hist, LAMBDA e : e.k # "KILL")
      c == Walk(Ss, r.index, h, 2)
  IN IF c # "ok" THEN c
     ELSE IF ~Calm(Ss, h, 2) \/ Delic(Ss, h[Len(h)].p, h[Len(h)].d) THEN "ok"
     ELSE IF r.raised # "" THEN "raised"
     ELSE IF ~Ending(r) THEN "ending" ELSE "ok"
\* an edge or corner belongs to several faces
Unclear(r) == \E n \in DOMAIN r.solids : LET S == SolidOf(r.solids[n]) IN Delicate(S, r.o, r.d) \/ Cardinality({a \in 1..3 : r.o[a] % S.s = 0}) > 1
\* a mesh is placed by its centre of mass
Centred(x) == LET n == Len(x.cells) c(a) == LET sum[k \in 0..n] == IF k = 0 THEN 0 ELSE sum[k - 1] + 2 * x.cells[k][a] + 1 IN sum[n]
              IN \A a \in 1..3 : Near(x.centre[a] * 2 * n, c(a) * x.s * U, 8 * n)
Clause(r) == IF \E n \in DOMAIN r.solids : ~Centred(r.solids[n]) THEN "centre" ELSE IF r.kind = "ask" THEN (IF r.raised = "" THEN AskClause(r) ELSE IF Unclear(r) THEN "ok" ELSE "raised") ELSE TraceClause(r)
\* how many events of a history are judged
RECURSIVE Judged(_, _, _)
Judged(Ss, h, j) == IF j > Len(h) THEN j - 2 ELSE IF Delic(Ss, h[j - 1].p, h[j - 1].d) THEN j - 2 ELSE Judged(Ss, h, j + 1)
Weight(r) == IF r.kind = "ask" THEN Len(r.hits) ELSE Judged([n \in DOMAIN r.solids |-> SolidOf(r.solids[n])], r.hist, 2)
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ PrintT(<<"V", i, Clause(Recs[i]), Weight(Recs[i])>>) /\ i' = i + 1
===============================================================================
