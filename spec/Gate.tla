-------------------------------- MODULE Gate --------------------------------
(* What the compiled engine accepts.  A scene is a choice of supported parts  *)
(* plus at most two unsupported features; it is accepted exactly when it has  *)
(* none, otherwise refused before any ray is thrown.  The scene is never      *)
(* changed.  TLC enumerates the scenes; each is built and compiled for real.  *)
EXTENDS Integers, FiniteSets, Sequences, SequencesExt, TLC
CONSTANT Deep
Geometry == {"box", "sphere", "cylinder"}
Component == {"none", "absorber", "reactor", "scatterer", "luminophore"}
Phase == {"default", "isotropic", "hg", "cone"}
Pose == {"identity", "rotated", "via"}
Recorder == {"none", "surface", "facet", "volume", "exit", "many"}
Bad == {"mesh", "delegate", "subdelegate", "subnull", "subgeom", "subcomp", "phase", "subphase", "lambertian", "hist_abs", "hist_ems", "scale", "shear",
        "nomaterial", "rootless", "noworld", "duplicate", "duplicate_same", "volfacet", "toomany", "notrecorder", "component", "toomanynodes"}
VARIABLES scene, phase, answer, thrown
vars == <<scene, phase, answer, thrown>>
Valid(s) == /\ (s.phase # "default" => s.comp \in {"scatterer", "luminophore"})
            /\ (Cardinality(s.bad) = 2 => s.geo = "box" /\ s.comp = "none" /\ s.pose = "identity" /\ s.rec = "none")
            /\ (~Deep => Cardinality(s.bad) <= 1 /\ (s.bad # {} => s.geo = "box"))
Scenes == [geo : Geometry, comp : Component, phase : Phase, pose : Pose, rec : Recorder,
           bad : {b \in SUBSET Bad : Cardinality(b) <= IF Deep THEN 2 ELSE 1}]
Supported(s) == s.bad = {}
Init == /\ phase = "start" /\ answer = "" /\ thrown = 0
        /\ scene \in {s \in Scenes : Valid(s)}
Compile == /\ phase = "start"
           /\ IF Supported(scene) THEN answer' = "accepted" /\ phase' = "compiled"
              ELSE answer' = "refused" /\ phase' = "end"
           /\ UNCHANGED <<scene, thrown>>
Throw == phase = "compiled" /\ thrown' = 1 /\ phase' = "end" /\ UNCHANGED <<scene, answer>>
Report == phase = "end" /\ phase' = "done" /\ UNCHANGED <<scene, answer, thrown>>
          /\ PrintT(<<"V", scene.geo, scene.comp, scene.phase, scene.pose, scene.rec, SetToSeq(scene.bad), answer, thrown>>)
Next == Compile \/ Throw \/ Report
RefusedBeforeThrowing == answer = "refused" => thrown = 0
=============================================================================
