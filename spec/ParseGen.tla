------------------------------ MODULE ParseGen -------------------------------
(* Documents for the parser: every form of each part in turn, and every tree  *)
(* of parents; written out as JSON.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
None == [form |-> "none"]
File == [form |-> "file", id |-> 1]
Coefs == {-1, 0, 2000, 2500, 730}
SpecForms == {"none", "file", "name"}
Phases == {[form |-> "none"], [form |-> "isotropic"], [form |-> "lambertian"], [form |-> "cone", v |-> 30], [form |-> "cone", v |-> 75], [form |-> "hg", v |-> 600], [form |-> "hg", v |-> -300]}
Qys == {-1, 0, 350, 1000}
Component == [part : {"component"}, kind : {"absorber"}, coef : Coefs, spec : SpecForms, hist : BOOLEAN, qy : {-1}, phase : {None}, espec : {"none"}]
        \cup [part : {"component"}, kind : {"scatterer"}, coef : Coefs, spec : SpecForms, hist : BOOLEAN, qy : Qys, phase : Phases, espec : {"none"}]
        \cup [part : {"component"}, kind : {"luminophore"}, coef : Coefs, spec : SpecForms, hist : BOOLEAN, qy : Qys, phase : Phases, espec : {"file", "name"}]
Components == {c \in Component : (c.coef # -1 \/ c.spec # "none") /\ (c.kind = "absorber" \/ c.qy = 350 \/ c.phase.form \in {"none", "cone"})}
Lights == [part : {"light"}, wl : {-1, 610}, mwl : {"none", "number", "nanometers", "file", "name"}, pos : {"none", "rect", "square", "cube", "circle", "point"},
           dir : {"none", "isotropic", "lambertian", "cone", "conestring", "hg", "point"}]
Parents == {"", "~", "world", "n1", "n2", "n3", "ghost"}
Trees == [part : {"tree"}, p1 : Parents, p2 : Parents, p3 : Parents, order : {0, 1, 2}]
Locs == {<<>>, <<0, 0, 0>>, <<1000, -2500, 250>>, <<-500, 0, 4000>>}
Dirs == {<<>>} \cup {<<a, b, c>> : a \in {-2, 0, 3}, b \in {-1, 0, 4}, c \in {-3, 0, 1}}
Poses == [part : {"pose"}, loc : Locs, dir : Dirs, geo : {"box", "light"}]
Geos == [part : {"geometry"}, geo : {"box", "sphere", "cylinder", "mesh"}, size : {1, 2, 3}, index : {1000, 1500, 3420}, comps : {<<>>, <<"a">>, <<"b", "a">>, <<"missing">>}, integers : BOOLEAN]
Recorders == [part : {"recorder"}, geo : {"box", "sphere", "cylinder"}, record : {"absent", "true", "false"}, size : {1, 2, 3},
              explicit : {"none", "other", "override", "ghost", "world"}, event : {"entering", "escaping", "reflected", "lost", "reacted", "killed", "exit"},
              facet : BOOLEAN, hists : {"none", "one", "heatmap", "both"}]
Mutations == [part : {"mutation"}, mutation :
   {"no-world", "no-nodes", "no-version", "bad-version", "number-version", "unknown-node-key", "two-geometries", "no-geometry",
    "no-size", "no-material", "no-index", "low-index", "string-index", "string-size", "short-size", "no-radius", "negative-radius", "negative-length", "string-radius",
    "short-location", "string-location", "long-location", "short-direction", "string-parent", "number-parent",
    "unknown-component-kind", "two-component-kinds", "empty-component", "negative-coefficient", "string-coefficient", "no-coefficient", "high-yield", "negative-yield",
    "unknown-absorber-key", "unknown-scatterer-key", "spectrum-file-and-name", "spectrum-no-range", "spectrum-missing-file", "spectrum-unknown-name", "spectrum-unsorted", "spectrum-negative", "no-emission", "no-emission-spectrum",
    "two-positions", "unknown-position", "two-directions", "unknown-direction", "high-g", "no-half-angle", "string-half-angle", "zero-mask-direction", "short-mask-direction", "two-wavelengths", "string-wavelength",
    "bad-event", "no-event", "no-recorder-node", "short-facet", "unknown-recorder-key", "bad-histogram", "unknown-histogram", "backward-histogram", "bad-name", "not-a-map", "empty-file", "mesh-missing-file", "missing-file"},
   site : {1, 2}]
Docs == Components \cup Lights \cup Trees \cup Poses \cup Geos \cup {r \in Recorders : (r.explicit = "none" => r.event = "lost" /\ ~r.facet /\ r.hists = "none") /\ (r.facet => r.event \in {"entering", "escaping", "reflected"})} \cup Mutations
VARIABLE done
Init == done = FALSE
Next == ~done /\ ndJsonSerialize(IOEnv.OUT, SetToSeq(Components) \o SetToSeq(Lights) \o SetToSeq(Trees) \o SetToSeq(Poses) \o SetToSeq(Geos) \o
     SetToSeq({r \in Recorders : (r.explicit = "none" => r.event = "lost" /\ ~r.facet /\ r.hists = "none") /\ (r.facet => r.event \in {"entering", "escaping", "reflected"})}) \o SetToSeq(Mutations)) /\ done' = TRUE
==============================================================================
