----------------------------- MODULE StudioTrace -----------------------------
(* Judges one request to the real studio: the document before and after, the  *)
(* answer, the scene described in it, and the files.                          *)
EXTENDS StudioDoc, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLE i
Init == i = 1
Ok(r) == r.status = 200
\* nodes whose location the specification leaves open are compared without it
Same(e, a) == LET fn == {x.name : x \in {y \in e.nodes : y.loc = <<"free">>}}
                  fr == {x.name : x \in {y \in e.recs : y.rest = "free"}}
                  Open(x) == IF x.name \in fn THEN [x EXCEPT !.loc = <<"free">>] ELSE x
                  OpenR(x) == IF x.name \in fr THEN [x EXCEPT !.rest = "free"] ELSE x
              IN /\ e.nodes = {Open(x) : x \in a.nodes} /\ e.comps = a.comps /\ e.rest = a.rest
                 /\ e.recs = {OpenR(x) : x \in a.recs}
\* a recorder made by record: true keeps what it was when it is written into the document
Kept(r, a) == r.asked.a \in Names(a.recs) => \/ r.auto = <<>>
                                              \/ LET x == Get(a.recs, r.asked.a) IN x.rest = r.auto[1] /\ (r.asked.f # "facet" => x.facet = r.auto[2])
Close(p, q, t) == \A k \in 1..3 : p[k] - q[k] <= t /\ q[k] - p[k] <= t
\* the scene in the answer is the document's
SceneOf(r, d) ==
  LET s == r.scene IN
  IF {x.name : x \in ToSet(s.nodes)} # {x.name : x \in {y \in d.nodes : y.kind \in Geometry}} THEN "nodes"
  ELSE IF Len(s.nodes) # Cardinality({y \in d.nodes : y.kind \in Geometry}) THEN "nodes-twice"
  ELSE IF \E x \in ToSet(s.nodes) : x.kind # Node(d, x.name).kind THEN "kind"
  ELSE IF \E x \in ToSet(s.nodes) : x.params # r.params[x.name] THEN "params"
  ELSE IF \E x \in ToSet(s.nodes) : x.root # (x.name = "world") THEN "root"
  ELSE IF {x.name : x \in ToSet(s.lights)} # {x.name : x \in {y \in d.nodes : y.kind = "light"}} THEN "lights"
  ELSE IF \E x \in ToSet(s.nodes) \cup ToSet(s.lights) : Straight(d, x.name) /\ ~Close(x.pos, Pos(d, x.name), 1) THEN "position"
  ELSE IF ToSet(s.recorders) # Recorders(d) \/ Len(s.recorders) # Cardinality(Recorders(d)) THEN "recorders"
  ELSE "ok"
Moved(r) == \A x \in ToSet(r.scene.nodes) \cup ToSet(r.scene.lights) : x.name = r.asked.a => Close(x.pos, r.asked.v, 2)
Patch(o) == o.op \notin {"put", "put-bad", "save", "reload", "upload"}
Verdict(r) ==
  LET o == r.asked b == TLCEval(ToDoc(r.before)) a == TLCEval(ToDoc(r.after)) IN
  IF r.litter # <<>> THEN "C21.litter"
  ELSE IF o.op = "save" THEN (IF ~Ok(r) THEN "C21.save-refused" ELSE IF ~r.filesame THEN "C21.saved" ELSE IF ~r.textsame THEN "C21.save-changed" ELSE "ok")
  ELSE IF o.op = "reload" THEN (IF ~r.filesame THEN "C21.reload" ELSE IF r.scene.nodes # <<>> /\ SceneOf(r, a) # "ok" THEN "C21.reload-" \o SceneOf(r, a) ELSE "ok")
  ELSE IF ~r.filesame THEN "C21.file-touched"
  ELSE IF ~Ok(r) /\ ~r.textsame THEN "C21.refused-changed"
  ELSE IF o.op = "fault" THEN (IF Ok(r) /\ ~r.served THEN "C21.served" ELSE "ok")
  ELSE IF o.op = "upload" THEN (IF (o.a = "good") # Ok(r) THEN "C21.upload" ELSE IF ~r.textsame THEN "C21.upload-changed" ELSE "ok")
  ELSE IF o.op = "put-bad" THEN (IF Ok(r) THEN "C21.accepted-bad" ELSE "ok")
  ELSE IF o.op = "put" THEN (IF ~Ok(r) THEN "C21.refused-good" ELSE IF ~r.served THEN "C21.served" ELSE IF SceneOf(r, a) # "ok" THEN "C21.scene-" \o SceneOf(r, a) ELSE "ok")
  ELSE LET e == Expected(b, o) IN
    IF Ok(r) # e.ok THEN (IF Ok(r) THEN "C22.accepted" ELSE "C22.refused")
    ELSE IF ~Ok(r) THEN "ok"
    ELSE IF ~r.served THEN "C21.served"
    ELSE IF ~Same(e.doc, a) THEN "C22.edit-" \o o.op
    ELSE IF o.op = "update-recorder" /\ ~Kept(r, a) THEN "C22.recorder-lost"
    ELSE IF SceneOf(r, a) # "ok" THEN "C21.scene-" \o SceneOf(r, a)
    ELSE IF o.op = "move" /\ ~Moved(r) THEN "C22.moved"
    ELSE "ok"
Next == /\ i <= Len(Recs) /\ PrintT(<<"V", i, IF Recs[i].kind = "run" THEN (IF Recs[i].same THEN "ok" ELSE "C21.traced") ELSE Verdict(Recs[i]), 0>>) /\ i' = i + 1
==============================================================================
