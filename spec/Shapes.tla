-------------------------------- MODULE Shapes --------------------------------
(* Judges what the real shapes and scenes report for a ray against Solid.       *)
(* A record: nodes [shape, chain (poses from the root: columns of a rotation by  *)
(* quarter turns, whole-number location)], o, d in the root's frame, and hits    *)
(* [node, p, dist] in the order reported, p and dist scaled by 1e6; for records  *)
(* of one shape each hit also has normal (1e6), entering, surface, inside and    *)
(* the classification of points just inside and just outside.  A traced record  *)
(* is a history of either tracer through shapes of the same index as the world   *)
(* and with null surfaces: its events are the crossings, with normals and sides. *)
EXTENDS Fixed, TLC, Json, IOUtils, FiniteSets, Solid
Recs == ndJsonDeserialize(IOEnv.RECS)
M == 1000000
UndoR(r, v) == <<r[1][1] * v[1] + r[1][2] * v[2] + r[1][3] * v[3], r[2][1] * v[1] + r[2][2] * v[2] + r[2][3] * v[3], r[3][1] * v[1] + r[3][2] * v[2] + r[3][3] * v[3]>>
Times(k, v) == <<k * v[1], k * v[2], k * v[3]>>
RECURSIVE Into(_, _, _)     \* a point (scaled by f) into the frame at the end of a chain
Into(chain, p, f) == IF chain = <<>> THEN p ELSE Into(Tail(chain), UndoR(chain[1].r, Sub(p, Times(f, chain[1].t))), f)
RECURSIVE IntoV(_, _)
IntoV(chain, v) == IF chain = <<>> THEN v ELSE IntoV(Tail(chain), UndoR(chain[1].r, v))
Local(r, n) == LET c == r.nodes[n].chain IN [o |-> Into(c, r.o, 1), d |-> IntoV(c, r.d)]
Tol == 8
\* p (scaled) on the surface of s
OnShape(s, p) == CASE s.kind = "box" -> (\E k \in 1..3 : Near(AbsI(p[k]), s.h[k] * M, Tol)) /\ \A k \in 1..3 : AbsI(p[k]) <= s.h[k] * M + Tol
                   [] s.kind = "sphere" -> Near(MulS(p[1], p[1]) + MulS(p[2], p[2]) + MulS(p[3], p[3]), Sq(s.h[1]) * 10000, 12)
                   [] s.kind = "cylinder" -> LET rr == MulS(p[1], p[1]) + MulS(p[2], p[2])
                                             IN \/ Near(rr, Sq(s.h[1]) * 10000, 12) /\ AbsI(p[3]) <= s.h[2] * M + Tol
                                                \/ Near(AbsI(p[3]), s.h[2] * M, Tol) /\ rr <= Sq(s.h[1]) * 10000 + 12
DotI(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
OnLine(o, d, p) == LET q == Sub(p, Times(M, o)) t == 60 IN
  Near(q[2] * d[3], q[3] * d[2], t) /\ Near(q[3] * d[1], q[1] * d[3], t) /\ Near(q[1] * d[2], q[2] * d[1], t)
Ahead(o, d, p) == DotI(Sub(p, Times(M, o)), d) > 0
AtOrigin(r, h) == NearV(h.p, Times(M, r.o), 5)
LengthOk(r, h) == LET q == Sub(h.p, Times(M, r.o)) IN Near(MulS(q[1], q[1]) + MulS(q[2], q[2]) + MulS(q[3], q[3]), MulS(h.dist, h.dist), 40)
\* ---- one shape: the normal and the classification at a hit
Normal(s, p) == CASE s.kind = "box" -> LET k == CHOOSE j \in 1..3 : Near(AbsI(p[j]), s.h[j] * M, Tol) IN [e |-> [j \in 1..3 |-> IF j # k THEN 0 ELSE IF p[k] > 0 THEN M ELSE -M], f |-> 1]
                  [] s.kind = "sphere" -> [e |-> p, f |-> s.h[1]]
                  [] s.kind = "cylinder" -> IF Near(AbsI(p[3]), s.h[2] * M, Tol) THEN [e |-> <<0, 0, IF p[3] > 0 THEN M ELSE -M>>, f |-> 1]
                                            ELSE [e |-> <<p[1], p[2], 0>>, f |-> s.h[1]]
NormalOk(s, h) == LET n == Normal(s, h.p) IN NearV(Times(n.f, h.normal), n.e, 6 + 2 * n.f)
HitClause(s, r, h, x) ==
  IF ~NormalOk(s, h) THEN "normal"
  ELSE IF ~h.surface THEN "hit-not-on-surface"
  ELSE IF h.inside THEN "hit-inside"
  ELSE IF ~h.below THEN "below-not-inside"
  ELSE IF ~h.above THEN "above-not-outside"
  ELSE IF h.entering # (DotI(h.normal, r.d) < 0) THEN "entering"
  ELSE "ok"
OneClause(r) ==
  LET s == r.nodes[1].shape hs == SelectSeq(r.hits, LAMBDA h : ~AtOrigin(r, h)) side == Side(s, r.o)
  IN IF r.contains # (side = -1) THEN "contains"
     ELSE IF r.surface # (side = 0) THEN "on-surface"
     ELSE IF Cross(s, r.o, r.d).edge \/ ~r.detail THEN "ok"
     ELSE LET bad == {k \in DOMAIN hs : HitClause(s, r, hs[k], r.d) # "ok"}
          IN IF bad # {} THEN HitClause(s, r, hs[CHOOSE k \in bad : \A j \in bad : k <= j], r.d)
             ELSE IF Len(hs) > 0 /\ hs[Len(hs)].entering THEN "last-not-leaving"
             ELSE IF Len(hs) = 2 /\ ~hs[1].entering THEN "first-not-entering" ELSE "ok"
\* ---- a ray traced through shapes that do not disturb it: every crossing, told apart by side
TraceClause(r) ==
  LET loc(n) == Local(r, n)
      d(h) == loc(h.node).d
      bad == {k \in DOMAIN r.hits : LET h == r.hits[k] c == r.nodes[h.node].chain
                                        q == [p |-> Into(c, h.p, M), normal |-> IntoV(c, h.normal)]
                                    IN ~NormalOk(r.nodes[h.node].shape, q) \/ h.entering # (DotI(q.normal, d(h)) < 0)}
      before(k) == {j \in DOMAIN r.hits : j < k /\ r.hits[j].node = r.hits[k].node}
  IN IF bad # {} THEN "traced-normal"
     ELSE IF \E k \in DOMAIN r.hits : r.hits[k].entering # ((Cardinality(before(k)) % 2) = (IF Side(r.nodes[r.hits[k].node].shape, loc(r.hits[k].node).o) = -1 THEN 1 ELSE 0)) THEN "traced-side"
     ELSE "ok"
\* ---- any number of nodes
Clause(r) ==
  LET loc == TLCEval([n \in DOMAIN r.nodes |-> Local(r, n)])
      shape(n) == r.nodes[n].shape
      cr == TLCEval([n \in DOMAIN r.nodes |-> Cross(shape(n), loc[n].o, loc[n].d)])
      clean == {n \in DOMAIN r.nodes : ~cr[n].edge}
      kept == SelectSeq(r.hits, LAMBDA h : ~(AtOrigin(r, h) /\ Side(shape(h.node), loc[h.node].o) = 0))
      hs == SelectSeq(kept, LAMBDA h : h.node \in clean)
  IN IF r.traced /\ clean # DOMAIN r.nodes THEN "ok"
     ELSE IF r.traced /\ r.raised # "" THEN "raised"
     ELSE IF \E n \in clean : Cardinality({k \in DOMAIN hs : hs[k].node = n}) # cr[n].n THEN "count"
     ELSE IF \E k \in DOMAIN kept : ~OnLine(r.o, r.d, kept[k].p) THEN "off-line"
     ELSE IF \E k \in DOMAIN kept : ~Ahead(r.o, r.d, kept[k].p) THEN "behind"
     ELSE IF \E k \in DOMAIN kept : ~OnShape(shape(kept[k].node), Into(r.nodes[kept[k].node].chain, kept[k].p, M)) THEN "off-surface"
     ELSE IF \E k \in DOMAIN kept : ~LengthOk(r, kept[k]) THEN "distance"
     ELSE IF \E k \in 1..(Len(r.hits) - 1) : r.hits[k].dist > r.hits[k + 1].dist + 2 THEN "order"
     ELSE IF \E n \in clean : \E j, k \in DOMAIN hs : j < k /\ hs[j].node = n /\ hs[k].node = n /\ NearV(hs[j].p, hs[k].p, 5) THEN "repeated"
     ELSE IF ~r.rootframe THEN "frame"
     ELSE IF r.traced THEN TraceClause(r)
     ELSE IF r.single THEN OneClause(r) ELSE "ok"
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ PrintT(<<"V", i, Clause(Recs[i])>>) /\ i' = i + 1
===============================================================================
