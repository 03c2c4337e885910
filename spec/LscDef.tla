-------------------------------- MODULE LscDef --------------------------------
(* What an LSC device reports about the rays it traced.  A history is a        *)
(* sequence of [e, f, src, w]: the event, the facet of the device it happened  *)
(* at ("" elsewhere, "other" for a crossing or reflection somewhere else, that *)
(* is at the air gap mirror), the origin of the light and its wavelength.      *)
EXTENDS Integers, Sequences, FiniteSets
Sides == {"left", "right", "near", "far"}
Facets == Sides \cup {"top", "bottom"}
Surface == {"reflect", "transmit"}
Seen(h) == SelectSeq(h, LAMBDA x : ~(x.e \in Surface /\ x.f = "other"))    \* what happened to the device
Row(kind, x) == [kind |-> kind, e |-> x.e, f |-> IF x.e \in Surface THEN x.f ELSE "", src |-> x.src, w |-> x.w]
First(h) == Row("first", Seen(h)[2])
Last(h) == LET s == Seen(h) n == Len(s) IN
   CASE s[n].e = "kill" -> Row("last", s[n])                               \* gave up here
     [] s[n].e \in {"nonradiative", "react"} -> Row("last", s[n - 1])      \* the absorption it did not come back from
     [] s[n].e = "exit" -> Row("last", s[n - 1])                           \* where it was seen last
RECURSIVE RowsOf(_, _)
RowsOf(hs, k) == IF k > Len(hs) THEN <<>> ELSE <<First(hs[k]), Last(hs[k])>> \o RowsOf(hs, k + 1)
\* a ray ends in exactly one of these ways
Fate(h) == LET r == Last(h) IN CASE r.f # "" -> "out-" \o r.f [] r.e = "absorb" -> "lost" [] r.e = "kill" -> "killed" [] r.e = "generate" -> "missed" [] OTHER -> "?"
\* ---- questions
Asked(q, r, all) == /\ q.kind \in {"none", r.kind}
                    /\ r.src \in (IF q.every THEN all ELSE {q.src[k] : k \in DOMAIN q.src})
                    /\ (q.facets = <<>> \/ r.f \in {q.facets[k] : k \in DOMAIN q.facets})
                    /\ (~q.byevent \/ r.e \in {q.events[k] : k \in DOMAIN q.events})
Answer(q, rows, all) == SelectSeq(rows, LAMBDA r : Asked(q, r, all))
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in {s[k] : k \in DOMAIN s} : Cardinality({k \in DOMAIN s : s[k] = x}) = Cardinality({k \in DOMAIN t : t[k] = x})
Num(rows, kind, f, srcs) == Cardinality({k \in DOMAIN rows : rows[k].kind = kind /\ rows[k].f = f /\ rows[k].src \in srcs})
CountOf(rows, column, f, lights, comps) ==
   CASE column = "Solar In" -> Num(rows, "first", f, lights) [] column = "Solar Out" -> Num(rows, "last", f, lights)
     [] column = "Luminescent In" -> Num(rows, "first", f, comps) [] column = "Luminescent Out" -> Num(rows, "last", f, comps)
Columns == {"Solar In", "Solar Out", "Luminescent In", "Luminescent Out"}
RECURSIVE SumOver(_, _, _, _, _)
SumOver(rows, kind, fs, srcs, n) == IF fs = {} THEN n ELSE LET f == CHOOSE g \in fs : TRUE IN SumOver(rows, kind, fs \ {f}, srcs, n + Num(rows, kind, f, srcs))
Incident(rows, lights) == SumOver(rows, "first", Facets, lights, 0)
Collected(rows, cells, comps) == SumOver(rows, "last", cells, comps, 0)
Escaped(rows, cells, comps) == SumOver(rows, "last", Facets \ cells, comps, 0)
LostOf(rows, all) == Cardinality({k \in DOMAIN rows : rows[k].kind = "last" /\ rows[k].e = "absorb" /\ rows[k].src \in all})
===============================================================================
