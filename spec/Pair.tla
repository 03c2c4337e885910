--------------------------------- MODULE Pair ---------------------------------
(* Two tracers, one ray whose fate is certain: the histories must coincide       *)
(* event by event (up to rounding, and up to the first grazing surface event).   *)
EXTENDS Fixed, TLC, Json, IOUtils
RECS == ndJsonDeserialize(IOEnv.RECS)
VARIABLES h, i, bad
A == RECS[h].a
B == RECS[h].b
GRAZE == 1000000
Grazing(e, p) == e.hasn /\ i > 1 /\ (Abs(Dot(p.d, e.nrm)) < GRAZE \/ Abs(Dot(e.d, e.nrm)) < GRAZE)
(* two volumes share the face: either may be named as the one that was hit       *)
Either(x, y) == x.con # 0 /\ x.adj # 0 /\ {x.hit, y.hit} = {x.con, x.adj}
Differ(x, y) ==
  CASE x.k # y.k       -> "C09.event"
    [] x.con # y.con   -> "C09.container"
    [] x.adj # y.adj   -> "C09.adjacent"
    [] x.comp # y.comp -> "C09.component"
    [] x.s # y.s       -> "C09.source"
    [] x.hit # y.hit /\ ~Either(x, y) -> "C09.hit"
    [] ~NearV(x.p, y.p, 5) -> "C09.position"
    [] ~NearV(x.d, y.d, 100) -> "C09.direction"
    [] ~NearV(x.nrm, IF x.hit = y.hit THEN y.nrm ELSE Neg(y.nrm), 100) -> "C09.normal"
    [] ~Near(x.w, y.w, 1) -> "C09.wavelength"
    [] ~Near(x.dl, y.dl, 5) -> "C09.travelled"
    [] ~Near(x.du, y.du, 10) -> "C09.duration"
    [] OTHER -> "ok"
Init == h \in 1..Len(RECS) /\ i = 1 /\ bad = ""
Step == /\ bad = "" /\ i <= Len(A) /\ i <= Len(B)
        /\ IF A[i].k \in {"REFLECT", "TRANSMIT"} /\ Grazing(A[i], A[Max2(i - 1, 1)])
           THEN bad' = "ok" /\ i' = i
           ELSE LET c == Differ(A[i], B[i]) IN
                IF c = "ok" THEN bad' = "" /\ i' = i + 1 ELSE bad' = c /\ i' = i
        /\ UNCHANGED h
Finish == /\ bad = "" /\ (i > Len(A) \/ i > Len(B))
          /\ bad' = IF Len(A) = Len(B) THEN "ok" ELSE "C09.length"
          /\ UNCHANGED <<h, i>>
Report == bad # "" /\ bad # "done" /\ PrintT(<<"V", h, bad, i>>) /\ bad' = "done" /\ UNCHANGED <<h, i>>
Next == Step \/ Finish \/ Report
=============================================================================
