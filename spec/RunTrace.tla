------------------------------- MODULE RunTrace ------------------------------
(* Judges what one websocket connection saw: the client's commands (logged    *)
(* when the server had handled them) and the server's messages, in order.     *)
(* Runs are known by their number of rays, all different.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLE i
Init == i = 1
\* state of the client's view
S0 == [runs |-> <<>>, doc |-> 0, cur |-> 0, over |-> TRUE, sig |-> -1, traced |-> 0, late |-> 0, stop |-> FALSE, paths |-> 0, closed |-> FALSE, bad |-> "ok", at |-> 0, step |-> 0]
Fail(s, c) == IF s.bad = "ok" THEN [s EXCEPT !.bad = c] ELSE s
Near(a, b, t) == a - b <= t /\ b - a <= t
Same(o, r, t) == Len(o) = Len(r) /\ \A k \in DOMAIN r : Near(o[k], r[k], t)
AddDoc(r, d) == [r EXCEPT !.docs = @ \cup {d}]
Step(s, e) ==
  CASE e.k = "run" -> [s EXCEPT !.runs = Append(@, [rays |-> e.rays, bundle |-> e.bundle, bad |-> e.bad, docs |-> {s.doc}, ended |-> FALSE, stop |-> FALSE, maxp |-> e.maxpaths]), !.stop = TRUE]
    [] e.k = "stop" -> [s EXCEPT !.stop = TRUE, !.runs = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![Len(s.runs)].stop = TRUE]]
    [] e.k = "edit" -> [s EXCEPT !.doc = e.doc, !.runs = [j \in DOMAIN s.runs |-> IF j > s.cur THEN AddDoc(s.runs[j], e.doc) ELSE s.runs[j]]]
    [] e.k = "close" -> [s EXCEPT !.closed = TRUE]
    [] s.closed -> s
    [] e.k = "started" ->
         IF e.id = 0 THEN Fail(s, "C23.total")
         ELSE IF e.id <= s.cur \/ e.id > Len(s.runs) THEN Fail(s, "C23.order")
         ELSE IF e.sig \notin s.runs[e.id].docs THEN Fail(s, "C23.scene")
         ELSE IF ~e.meta THEN Fail(s, "C23.description")
         ELSE [s EXCEPT !.cur = e.id, !.over = FALSE, !.sig = e.sig, !.traced = 0, !.late = 0, !.stop = (e.id < Len(s.runs)) \/ s.runs[e.id].stop, !.paths = 0, !.step = 0]
    [] e.k = "bundle" ->
         IF s.cur = 0 \/ e.id # s.cur THEN Fail(s, "C23.other-run")
         ELSE IF s.over THEN Fail(s, "C23.after-end")
         ELSE IF e.sig # s.sig THEN Fail(s, "C23.scene-changed")
         ELSE IF e.traced <= s.traced THEN Fail(s, "C23.not-increasing")
         ELSE IF e.traced > s.runs[s.cur].rays THEN Fail(s, "C23.too-many")
         ELSE IF s.stop /\ s.late >= 1 THEN Fail(s, "C23.kept-going")
         ELSE IF ~Same(e.obs, e.ref, 0) THEN Fail(s, "C23.counts")
         ELSE IF ~Same(e.obsm, e.refm, 2) THEN Fail(s, "C23.means")
         ELSE IF s.paths + e.paths > s.runs[s.cur].maxp THEN Fail(s, "C23.too-many-paths")
         ELSE IF ~e.pathok THEN Fail(s, "C23.paths")
         ELSE [s EXCEPT !.traced = e.traced, !.late = IF s.stop THEN @ + 1 ELSE @, !.paths = @ + e.paths, !.step = e.traced - s.traced]
    [] e.k = "done" ->
         IF s.cur = 0 \/ s.over THEN Fail(s, "C23.done-twice")
         ELSE IF ~s.stop /\ s.traced # s.runs[s.cur].rays THEN Fail(s, "C23.short")
         ELSE [s EXCEPT !.over = TRUE, !.runs = [j \in DOMAIN @ |-> IF j <= s.cur THEN [@[j] EXCEPT !.ended = TRUE] ELSE @[j]]]
    [] e.k = "error" ->
         IF \E j \in DOMAIN s.runs : s.runs[j].bad /\ ~s.runs[j].ended
         THEN LET j == CHOOSE j \in DOMAIN s.runs : s.runs[j].bad /\ ~s.runs[j].ended /\ \A h \in 1..(j - 1) : s.runs[h].ended \/ ~s.runs[h].bad
              IN [s EXCEPT !.runs = [@ EXCEPT ![j].ended = TRUE], !.over = IF s.cur = j THEN TRUE ELSE @]
         ELSE Fail(s, "C23.error")
    [] OTHER -> Fail(s, "C23.message")
RECURSIVE Run(_, _, _)
Run(s, es, k) == IF k > Len(es) \/ s.bad # "ok" THEN s ELSE Run(TLCEval([Step(s, es[k]) EXCEPT !.at = k]), es, k + 1)
\* when everything has been let through, the last run command has been answered
Final(s) == IF s.bad # "ok" THEN s.bad
            ELSE IF ~s.closed /\ s.runs # <<>> /\ ~s.runs[Len(s.runs)].ended THEN "C23.silent"
            ELSE IF ~s.closed /\ \E j \in DOMAIN s.runs : s.runs[j].bad /\ ~s.runs[j].ended /\ j = Len(s.runs) THEN "C23.silent"
            ELSE "ok"
Next == /\ i <= Len(Recs)
        /\ LET s == Run(S0, Recs[i].log, 1) IN PrintT(<<"V", i, Final(s), s.at>>)
        /\ i' = i + 1
==============================================================================
