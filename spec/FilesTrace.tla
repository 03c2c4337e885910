------------------------------- MODULE FilesTrace -------------------------------
(* Judges what real commands did to the files.  A record: the initial scene and  *)
(* database and one step per command: c (the command), ok, and what was found     *)
(* afterwards: kind of the database and its number of throws, whether its bytes   *)
(* are those before the command, whether scene and other files are untouched, and *)
(* what the live view was given (the throw each drawn history is, 0 for none).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
F == INSTANCE Files WITH MaxSteps <- 0, Sampled <- FALSE, scene <- "", db <- "", log <- <<>>, done <- FALSE
Recs == ndJsonDeserialize(IOEnv.RECS)
Found(b) == CASE b = "none" -> <<"none", 0>> [] b = "other" -> <<"other", 0>> [] OTHER -> <<"run", F!Rays(b)>>
\* the live view: opened before anything is drawn, whole histories of this run, none twice, and with one worker in their order
View(s, e) ==
  IF s.c[1] = "show" THEN (IF s.opened = (IF e[1] THEN 1 ELSE 0) /\ s.scenes = s.opened /\ s.drawn = <<>> THEN "ok" ELSE "show")
  ELSE IF s.c[1] # "simulate" \/ s.c[5] # "viewed" \/ ~e[1] THEN (IF s.opened = 0 /\ s.drawn = <<>> THEN "ok" ELSE "view-unasked")
  ELSE IF s.opened # 1 \/ s.scenes # 1 THEN "view-not-opened"
  ELSE IF 0 \in {s.drawn[k] : k \in DOMAIN s.drawn} THEN "drawn-not-a-history"
  ELSE IF \E j, k \in DOMAIN s.drawn : j < k /\ s.drawn[j] >= s.drawn[k] THEN "drawn-order"
  ELSE IF s.early THEN "drawn-before-the-scene"
  ELSE IF s.every = 1 /\ Len(s.drawn) < F!Rays(s.c[4]) - 1 THEN "not-drawn" ELSE "ok"
Step(s, e, before) ==
  IF s.c[1] \in {"edit", "put"} THEN "ok"
  ELSE IF s.ok # e[1] THEN (IF e[1] THEN "failed-" ELSE "succeeded-") \o s.c[1]
  ELSE IF <<s.kind, s.throws>> # Found(e[2]) THEN "database-" \o s.c[1]
  ELSE IF ~s.scene THEN "scene-" \o s.c[1]
  ELSE IF ~s.others THEN "other-files-" \o s.c[1]
  ELSE IF ~s.same /\ ~(s.c[1] = "simulate" /\ e[1]) THEN "bytes-" \o s.c[1]
  ELSE IF s.c[1] = "simulate" /\ e[1] /\ before # "none" /\ s.same THEN "not-replaced"
  ELSE View(s, e)
VARIABLES i, k, scene, db
Init == i = 1 /\ k = 0 /\ scene = "" /\ db = ""
Begin == i <= Len(Recs) /\ k = 0 /\ k' = 1 /\ scene' = Recs[i].scene /\ db' = Recs[i].db /\ i' = i
Walk == /\ i <= Len(Recs) /\ k > 0
        /\ IF k > Len(Recs[i].steps) THEN PrintT(<<"V", i, "ok">>) /\ i' = i + 1 /\ k' = 0 /\ UNCHANGED <<scene, db>>
           ELSE LET s == Recs[i].steps[k]
                    e == CASE s.c[1] = "edit" -> <<TRUE, db>> [] s.c[1] = "put" -> <<TRUE, s.c[2]>> [] OTHER -> F!Outcome(s.c, scene, db)
                    v == Step(s, e, db)
                IN IF v # "ok" THEN PrintT(<<"V", i, "C32." \o v, k>>) /\ i' = i + 1 /\ k' = 0 /\ UNCHANGED <<scene, db>>
                   ELSE /\ k' = k + 1 /\ i' = i /\ db' = e[2] /\ scene' = (IF s.c[1] = "edit" THEN s.c[2] ELSE scene)
Next == Begin \/ Walk
================================================================================
