------------------------------- MODULE Tally -------------------------------
(* Recorders.  The state machine walks every event of every history of a     *)
(* run and keeps, for each recorder, the tally the property prescribes:      *)
(* crossings at every matching interaction; rays, moments and bins at a      *)
(* ray's first matching interaction.  At the end of the run the tallies      *)
(* reported by pvtrace (the engine's, the reference's) are judged.           *)
(* Values carry integers: bins use per-property units, moments are scaled    *)
(* so that sums of squares fit.  `tol' of a value is 0 when it is exact.     *)
EXTENDS Fixed, FiniteSets, TLC, Json, IOUtils

RECS == ndJsonDeserialize(IOEnv.RECS)
VARIABLES h, j, e, seen, tal, verdict
vars == <<h, j, e, seen, tal, verdict>>
R == RECS[h]
Hist == R.hist[j]
Recs == DOMAIN R.rec

(* ------------------------------ selection ------------------------------- *)
Selects(r, ev) ==
  CASE r.event = "entering"  -> ev.k = "TRANSMIT" /\ ev.hit = r.node /\ ev.adj = r.node
    [] r.event = "escaping"  -> ev.k = "TRANSMIT" /\ ev.hit = r.node /\ ev.con = r.node
    [] r.event = "reflected" -> ev.k = "REFLECT" /\ ev.hit = r.node /\ ev.adj = r.node
    [] r.event = "lost"      -> ev.k = "NONRADIATIVE" /\ ev.con = r.node
    [] r.event = "reacted"   -> ev.k = "REACT" /\ ev.con = r.node
    [] r.event = "killed"    -> ev.k = "KILL" /\ ev.con = r.node
    [] r.event = "exit"      -> ev.k = "EXIT" /\ ev.hit = r.node
    [] OTHER -> FALSE
FacetYes(r, ev) == r.facet = <<>> \/ \A k \in 1..3 : Abs(r.facet[k] - ev.nrm[k]) <= r.atol - 2
FacetNo(r, ev) == r.facet # <<>> /\ \E k \in 1..3 : Abs(r.facet[k] - ev.nrm[k]) > r.atol + 2

(* ------------------------------- values --------------------------------- *)
PosProp == {"x", "y", "z"}
Axis(p) == CASE p = "x" -> 1 [] p = "y" -> 2 [] OTHER -> 3
Local(r, ev) == MatTVec(R.vol[r.node].R, Sub(ev.p, R.vol[r.node].T))
Value(r, p, ev) == IF p \in PosProp THEN Local(r, ev)[Axis(p)] ELSE ev.v[p]
Tol(p, ev) == IF p \in PosProp THEN 6 ELSE ev.x[p]
Bins(r, d, ev) ==       \* possible bins of a value along one dimension
  LET v == Value(r, d.prop, ev)  t == Tol(d.prop, ev)  w == (d.stop - d.start) \div d.bins
  IN {(v - t - d.start) \div w, (v + t - d.start) \div w}
Cells(r, hh, ev) ==     \* possible cells (flat, 1-based; 0 = outside)
  IF Len(hh) = 1 THEN {IF b \in 0..(hh[1].bins - 1) THEN b + 1 ELSE 0 : b \in Bins(r, hh[1], ev)}
  ELSE {IF a \in 0..(hh[1].bins - 1) /\ b \in 0..(hh[2].bins - 1) THEN a * hh[2].bins + b + 1 ELSE 0 :
           a \in Bins(r, hh[1], ev), b \in Bins(r, hh[2], ev)}
Size(hh) == IF Len(hh) = 1 THEN hh[1].bins ELSE hh[1].bins * hh[2].bins

Zero == [k \in Recs |-> [rays |-> 0, cross |-> 0, amb |-> FALSE,
                         sum |-> [m \in 1..4 |-> 0], sq |-> [m \in 1..4 |-> 0],
                         lo |-> [b \in DOMAIN R.rec[k].hists |-> [c \in 1..Size(R.rec[k].hists[b]) |-> 0]],
                         hi |-> [b \in DOMAIN R.rec[k].hists |-> [c \in 1..Size(R.rec[k].hists[b]) |-> 0]]]]
Feed(k, t, ev, already) ==
  LET r == R.rec[k] IN
  IF ~Selects(r, ev) \/ FacetNo(r, ev) THEN t
  ELSE IF ~FacetYes(r, ev) THEN [t EXCEPT !.amb = TRUE]
  ELSE LET t1 == [t EXCEPT !.cross = @ + 1] IN
       IF already THEN t1
       ELSE [t1 EXCEPT !.rays = @ + 1,
                       !.sum = [m \in 1..4 |-> t.sum[m] + ev.m[m]],
                       !.sq = [m \in 1..4 |-> t.sq[m] + ev.m[m] * ev.m[m]],
                       !.lo = [b \in DOMAIN t.lo |-> LET C == Cells(r, r.hists[b], ev) IN
                                  [c \in DOMAIN t.lo[b] |-> t.lo[b][c] + (IF C = {c} THEN 1 ELSE 0)]],
                       !.hi = [b \in DOMAIN t.hi |-> LET C == Cells(r, r.hists[b], ev) IN
                                  [c \in DOMAIN t.hi[b] |-> t.hi[b][c] + (IF c \in C THEN 1 ELSE 0)]]]

(* ------------------------------- judging -------------------------------- *)
Moment(t, m, mean, std, err) ==
  LET n == t.rays  v == t.sq[m] - 2 * mean * t.sum[m] + n * mean * mean IN
  CASE mean < 0 \/ std < 0 \/ err < 0 -> "C10.not_a_number"
    [] Abs(n * mean - t.sum[m]) > n + n \div 2 -> "C10.mean"
    [] Abs(v - n * std * std) > n * (4 * std + 12) + 4 * n -> "C10.deviation"
    [] Abs(n * err * err - std * std) > n * (2 * err + 2) + 2 * std + 2 -> "C10.standard_error"
    [] OTHER -> "ok"
FirstBad(S, n) == LET bad == {k \in 1..n : S[k] # "ok"} IN
  IF bad = {} THEN "ok" ELSE S[CHOOSE k \in bad : \A q \in bad : k <= q]
One(t, o) ==
  CASE t.amb -> "ok"
    [] o.rays # t.rays -> "C10.ray_count"
    [] o.cross # t.cross -> "C10.crossing_count"
    [] o.nan # (t.rays = 0) -> "C10.mean_of_nothing"
    [] \E b \in DOMAIN t.lo : Len(o.bins[b]) # Len(t.lo[b]) -> "C10.histogram_size"
    [] \E b \in DOMAIN t.lo : \E c \in DOMAIN t.lo[b] : o.bins[b][c] < t.lo[b][c] \/ o.bins[b][c] > t.hi[b][c] -> "C10.histogram"
    [] \E b \in DOMAIN o.edges : o.edges[b] # 1 -> "C10.histogram_edges"
    [] t.rays = 0 -> "ok"
    [] OTHER -> FirstBad([m \in 1..4 |-> Moment(t, m, o.mean[m], o.std[m], o.err[m])], 4)
\* the events counted over all histories are those in them
RECURSIVE Total(_, _)
Total(k, q) == IF q = 0 THEN 0 ELSE Cardinality({z \in DOMAIN R.kinds[q] : R.kinds[q][z] = k}) + Total(k, q - 1)
Said(k) == LET S == {q \in DOMAIN R.said : R.said[q][1] = k} IN IF S = {} THEN 0 ELSE R.said[CHOOSE q \in S : TRUE][2]
Counts == \A k \in {"GENERATE", "REFLECT", "TRANSMIT", "ABSORB", "SCATTER", "EMIT", "NONRADIATIVE", "REACT", "EXIT", "KILL"} : Said(k) = Total(k, Len(R.kinds))
Verdict == IF ~Counts THEN "C10.event_counts" ELSE
  LET n == Len(R.rec)
      V == [k \in 1..(n * Len(R.obs)) |->
             LET o == R.obs[((k - 1) \div n) + 1]  q == ((k - 1) % n) + 1 IN
             IF o.tally[q].missing THEN "C10.recorder_missing" ELSE One(tal[q], o.tally[q])]
  IN FirstBad(V, Len(V))

Init == h \in 1..Len(RECS) /\ j = 1 /\ e = 1 /\ seen = {} /\ tal = Zero /\ verdict = ""
Event == /\ j <= Len(R.hist) /\ e <= Len(Hist)
         /\ LET ev == Hist[e] IN
            /\ tal' = [k \in Recs |-> Feed(k, tal[k], ev, k \in seen)]
            /\ seen' = seen \cup {k \in Recs : Selects(R.rec[k], ev) /\ FacetYes(R.rec[k], ev)}
         /\ e' = e + 1 /\ UNCHANGED <<h, j, verdict>>
NextRay == /\ j <= Len(R.hist) /\ e > Len(Hist)
           /\ j' = j + 1 /\ e' = 1 /\ seen' = {} /\ UNCHANGED <<h, tal, verdict>>
Judge == /\ j > Len(R.hist) /\ verdict = "" /\ verdict' = Verdict
         /\ PrintT(<<"V", h, verdict', [k \in Recs |-> tal[k].rays], [k \in Recs |-> tal[k].cross]>>)
         /\ UNCHANGED <<h, j, e, seen, tal>>
Next == Event \/ NextRay \/ Judge
=============================================================================
