------------------------------- MODULE Store -------------------------------
(* Judges the contents of a database against what went onto the queue.        *)
(* record: prop, sent = sequence of [throw, ev] in queue order (ev: digest of *)
(* ray and event), rows = rows read back in insertion order as [id, ev],      *)
(* orphans = rows without their partner, whole = the run completed,           *)
(* bulk = judged at once; acked = number of items whose storing was reported before the end.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
RECS == ndJsonDeserialize(IOEnv.RECS)
VARIABLES h, k, first, owner, verdict
vars == <<h, k, first, owner, verdict>>
R == RECS[h]
Init == h \in 1..Len(RECS) /\ k = 1 /\ first = <<>> /\ owner = <<>> /\ verdict = ""
C(x) == R.prop \o "." \o x
Ids(s) == {s[i][1] : i \in DOMAIN s}
(* one stored row per step; first: throw -> id, owner: id -> throw, as seen so far *)
Lookup(s, a) == IF \E i \in DOMAIN s : s[i][1] = a THEN s[CHOOSE i \in DOMAIN s : s[i][1] = a][2] ELSE 0
Row == /\ verdict = "" /\ ~R.bulk /\ k <= Len(R.rows)
       /\ LET row == R.rows[k] IN
          IF k > Len(R.sent) THEN verdict' = C("stored_more_than_sent") /\ UNCHANGED <<first, owner, k>>
          ELSE LET it == R.sent[k]  id == Lookup(first, it.throw)  ow == Lookup(owner, row.id) IN
            IF row.ev # it.ev THEN verdict' = C("row_is_not_the_event_sent") /\ UNCHANGED <<first, owner, k>>
            ELSE IF id # 0 /\ id # row.id THEN verdict' = C("throw_split") /\ UNCHANGED <<first, owner, k>>
            ELSE IF ow # 0 /\ ow # it.throw THEN verdict' = C("throws_merged") /\ UNCHANGED <<first, owner, k>>
            ELSE /\ first' = IF id = 0 THEN Append(first, <<it.throw, row.id>>) ELSE first
                 /\ owner' = IF ow = 0 THEN Append(owner, <<row.id, it.throw>>) ELSE owner
                 /\ k' = k + 1 /\ verdict' = ""
       /\ UNCHANGED h
(* a long run, judged at once: throws and ids correspond one to one *)
Bulk == /\ verdict = "" /\ R.bulk /\ k = 1
        /\ LET n == Len(R.rows)
               pairs == {<<R.sent[i].throw, R.rows[i].id>> : i \in 1..n}
           IN verdict' = IF R.raised # "" THEN C("raised")
                         ELSE IF R.orphans > 0 THEN C("half_written_pair")
                         ELSE IF n > Len(R.sent) THEN C("stored_more_than_sent")
                         ELSE IF n < Len(R.sent) THEN C("events_missing")
                         ELSE IF \E i \in 1..n : R.rows[i].ev # R.sent[i].ev THEN C("row_is_not_the_event_sent")
                         ELSE IF Cardinality(pairs) # Cardinality({x[1] : x \in pairs}) THEN C("throw_split")
                         ELSE IF Cardinality(pairs) # Cardinality({x[2] : x \in pairs}) THEN C("throws_merged")
                         ELSE "ok"
        /\ UNCHANGED <<h, k, first, owner>>
End == /\ verdict = "" /\ ~R.bulk /\ k > Len(R.rows)
       /\ verdict' = IF R.raised # "" THEN C("raised")
                     ELSE IF R.orphans > 0 THEN C("half_written_pair")
                     ELSE IF R.whole /\ Len(R.rows) # Len(R.sent) THEN C("events_missing")
                     ELSE IF Len(R.rows) < R.acked THEN C("reported_events_lost")
                     ELSE "ok"
       /\ UNCHANGED <<h, k, first, owner>>
Report == verdict # "" /\ verdict # "done" /\ PrintT(<<"V", h, verdict, k>>) /\ verdict' = "done" /\ UNCHANGED <<h, k, first, owner>>
Next == Row \/ Bulk \/ End \/ Report
=============================================================================
