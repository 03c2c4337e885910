------------------------------- MODULE Query -------------------------------
(* Judges answers given by the real commands.  record: prop, rows (the truth) *)
(* and asked = sequence of queries with: count, and per quantity (spectrum,   *)
(* time) csv / json listings as <<throw, value>>, plots as <<lo, hi, number>> *)
(* bins with half = rounding of the printed edges, vert = the vertical plot   *)
(* showed something, exits = the commands that failed.                        *)
(* exact: the throw numbers of the listing are the record's.                  *)
EXTENDS QueryDef, TLC, Json, IOUtils
RECS == ndJsonDeserialize(IOEnv.RECS)
VARIABLES h, k, verdict
R == RECS[h]
C(x) == R.prop \o "." \o x
Set(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i].number + Sum(s, i + 1)
InBin(v, b, m) == v >= b.lo - m /\ v <= b.hi + m
(* every value of the listing once in the bin that contains it (m: rounding)  *)
Hist(bins, vals, m) ==
  /\ Sum(bins, 1) = Len(vals)
  /\ \A i \in DOMAIN bins :
       /\ bins[i].number <= Cardinality({j \in DOMAIN vals : InBin(vals[j], bins[i], m + 1)})
       /\ bins[i].number >= Cardinality({j \in DOMAIN vals : vals[j] >= bins[i].lo + m + 1 /\ vals[j] < bins[i].hi - m})
(* C15: the answer is what the rows say                                       *)
Listing(q, a) ==
  LET want == Pairs(R.rows, q, a.what)  got == Set(a.csv) IN
  IF ~a.listed THEN (IF want = {} THEN "ok" ELSE C("listing_failed"))
  ELSE IF Len(a.csv) # Cardinality(got) THEN C("value_listed_twice")
  ELSE IF R.exact /\ got # want THEN C("listing_" \o q.cmd)
  ELSE IF ~R.exact /\ ~SameUpToNumbering(got, want) THEN C("listing_" \o q.cmd)
  ELSE "ok"
First(s) == IF \E i \in DOMAIN s : s[i] # "ok" THEN s[CHOOSE i \in DOMAIN s : s[i] # "ok" /\ \A j \in 1..(i - 1) : s[j] = "ok"] ELSE "ok"
Rows15(q) ==
  IF q.counted /\ q.count # Count(R.rows, q.q) THEN C("count_" \o q.q.cmd)
  ELSE First([i \in DOMAIN q.ans |-> Listing(q.q, q.ans[i])])
(* C16: all forms tell the same                                               *)
Form(q, a) ==
  LET got == Set(a.csv)  n == Cardinality({p[1] : p \in got}) IN
  IF a.exits # "" /\ q.count > 0 THEN C("failed_" \o a.exits)
  ELSE IF n # q.count THEN C("listing_and_count_disagree")
  ELSE IF Len(a.json) # Len(a.csv) \/ Set(a.json) # got THEN C("json_differs")
  ELSE IF q.count = 0 THEN (IF Len(a.bins) > 0 THEN C("plot_of_nothing") ELSE "ok")
  ELSE IF Len(a.bins) = 0 THEN C("no_plot")
  ELSE IF ~Hist(a.bins, a.pos, a.half) THEN C("histogram")
  ELSE IF ~a.vert THEN C("no_vertical_plot")
  ELSE "ok"
Forms16(q) == First([i \in DOMAIN q.ans |-> Form(q, q.ans[i])])
Init == h \in 1..Len(RECS) /\ k = 1 /\ verdict = "ok"
Step == /\ verdict = "ok" /\ k <= Len(R.asked)
        /\ verdict' = (IF R.prop = "C15" THEN Rows15(R.asked[k]) ELSE Forms16(R.asked[k]))
        /\ k' = k + 1 /\ UNCHANGED h
Report == /\ verdict # "done" /\ (IF verdict # "ok" THEN TRUE ELSE k > Len(R.asked))
          /\ PrintT(<<"V", h, verdict, k - 1>>) /\ verdict' = "done" /\ UNCHANGED <<h, k>>
Next == Step \/ Report
=============================================================================
