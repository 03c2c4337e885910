-------------------------------- MODULE Runs --------------------------------
(* Observed engine runs of one scene and ray set against Sched: a history is  *)
(* a function of the ray's index and seed only; recorded slots are exactly    *)
(* the multiples of record_every; tallies of equal ray ranges are equal and   *)
(* tallies of a range are the sums of the tallies of its parts.               *)
(* run: [seed, first, n, every, hist (digests), cnt (integer tallies),        *)
(*       mom (float tallies as scaled integers), what]                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
RECS == ndJsonDeserialize(IOEnv.RECS)
VARIABLES h, done
R == RECS[h]
Slots(u) == IF u.every = 0 THEN 0 ELSE (u.n + u.every - 1) \div u.every
Ray(u, k) == <<u.seed - u.first, u.first + (k - 1) * u.every>>      \* base seed, ray
Near(a, b, t) == (IF a < b THEN b - a ELSE a - b) <= t
Same(a, b) ==
  /\ a.cnt = b.cnt
  /\ Len(a.mom) = Len(b.mom)
  /\ \A k \in DOMAIN a.mom : Near(a.mom[k], b.mom[k], 2)
Verdict ==
  LET run == R.run  base == run[1] IN
  IF \E q \in DOMAIN run : Len(run[q].hist) # Slots(run[q]) THEN "C11.recorded_histories"
  ELSE IF \E q \in DOMAIN run : \E k \in DOMAIN run[q].hist :
            LET y == Ray(run[q], k) IN
            y[1] = base.seed /\ y[2] < base.n /\ run[q].hist[k] # base.hist[y[2] + 1]
       THEN "C11.history_depends_on_the_schedule"
  ELSE IF \E q \in DOMAIN run : run[q].seed = base.seed /\ run[q].first = 0 /\ run[q].n = base.n
              /\ ~Same(run[q], base) THEN "C11.tallies_depend_on_the_schedule"
  ELSE IF \E g \in DOMAIN R.parts :      \* streamed: the parts cover the base range
            LET p == R.parts[g] IN
            \/ ~Same([cnt |-> p.cnt, mom |-> p.mom], base)
            \/ p.total # base.n \/ p.hist # base.hist
       THEN "C11.stream_is_not_the_single_run"
  ELSE "ok"
Init == h \in 1..Len(RECS) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED h /\ PrintT(<<"V", h, Verdict>>)
=============================================================================
