------------------------------- MODULE AskTrace --------------------------------
(* Judges recorded histories together with every question the tracer asked of    *)
(* user-supplied surfaces, phase functions and light delegates.                  *)
(* nodes: world pose of each node, rows R (1e8), T (1e6); custom: the node has a  *)
(* custom surface.  comps: which components have a custom phase function.        *)
(* hist: [k, p, d, w, con, adj, hit, comp, u, calls]; u the draw of the step (1e8)*)
(* call: [f, n, geo, con, adj, p, d, w, v, ret]: f the question, n whose, v a     *)
(* returned vector, ret a returned number.                                       *)
(* emit: rays of Scene.emit with the calls to the delegates of their light.      *)
(* bad:  an unusable answer, and what was raised.                                *)
EXTENDS Fixed, TLC, Json, IOUtils, FiniteSets
Recs == ndJsonDeserialize(IOEnv.RECS)
Row(m, p) == MulS(m[1], p[1]) + MulS(m[2], p[2]) + MulS(m[3], p[3])
Out(R, v) == <<Row(R[1], v), Row(R[2], v), Row(R[3], v)>>
In(R, v) == MatTVec(R, v)
Local(n, p) == In(n.R, Sub(p, n.T))
\* a question about the surface event e, in the frame of the node that was hit
AskedOf(nodes, e, f, c) ==
  IF c.n # e.hit \/ c.geo # e.hit THEN "asked-wrong-surface"
  ELSE IF c.con # e.con \/ c.adj # e.adj THEN "asked-wrong-volumes"
  ELSE IF ~NearV(c.p, Local(nodes[e.hit], e.p), 20) THEN "asked-position"
  ELSE IF ~NearV(c.d, In(nodes[e.hit].R, f.d), 200) THEN "asked-direction"
  ELSE IF ~Near(c.w, f.w, 2) THEN "asked-wavelength" ELSE "ok"
SurfaceClause(r, e, f) ==
  IF e.hit = 0 \/ ~r.nodes[e.hit].custom THEN (IF e.calls # <<>> THEN "asked-needlessly" ELSE "ok")
  ELSE IF Len(SelectSeq(e.calls, LAMBDA c : c.f = "reflectivity")) # 1 THEN "asked-reflectivity-times"
  ELSE IF Len(e.calls) # 2 THEN "asked-direction-times"
  ELSE LET q == e.calls[1] a == e.calls[2] n == r.nodes[e.hit]
       IN IF q.f # "reflectivity" THEN "asked-order"
          ELSE IF AskedOf(r.nodes, e, f, q) # "ok" THEN AskedOf(r.nodes, e, f, q)
          ELSE IF (e.k = "REFLECT") # (e.u < q.ret) THEN "reflectivity-not-obeyed"
          ELSE IF a.f # (IF e.k = "REFLECT" THEN "reflected" ELSE "transmitted") THEN "asked-other-direction"
          ELSE IF AskedOf(r.nodes, e, f, a) # "ok" THEN AskedOf(r.nodes, e, f, a)
          ELSE IF ~NearV(e.d, Out(n.R, a.v), 300) THEN "direction-not-obeyed" ELSE "ok"
PhaseClause(r, e) ==
  IF ~r.comps[e.comp] THEN (IF e.calls # <<>> THEN "asked-needlessly" ELSE "ok")
  ELSE IF Len(e.calls) # 1 THEN "phase-times"
  ELSE IF e.calls[1].f # "phase" \/ e.calls[1].n # e.comp THEN "phase-of-other"
  ELSE IF ~NearV(e.d, Out(r.nodes[e.con].R, e.calls[1].v), 300) THEN "phase-not-obeyed" ELSE "ok"
Clause1(r, j) == LET e == r.hist[j] IN
  CASE e.k \in {"REFLECT", "TRANSMIT"} -> SurfaceClause(r, e, r.hist[j - 1])
    [] e.k \in {"EMIT", "SCATTER"} -> PhaseClause(r, e)
    [] OTHER -> IF e.calls # <<>> THEN "asked-needlessly" ELSE "ok"
RECURSIVE Walk(_, _)
Walk(r, j) == IF j > Len(r.hist) THEN "ok" ELSE LET c == Clause1(r, j) IN IF c # "ok" THEN c ELSE Walk(r, j + 1)
\* ---- lights: each part is asked once for each ray, in the frame of the light
EmitClause(r) ==
  LET n == Len(r.rays)
      light(k) == r.lights[((k - 1) % Len(r.lights)) + 1]
      of(x, f) == SelectSeq(x.calls, LAMBDA c : c.f = f)
      one(k) == LET x == r.rays[k] l == light(k)
                    has(f) == f \in Range(l.asks)
                    vec(f, none) == IF has(f) THEN of(x, f)[1].v ELSE none
                IN IF \E f \in {"position", "direction", "wavelength"} : Len(of(x, f)) # (IF has(f) THEN 1 ELSE 0) THEN "light-times"
                   ELSE IF \E c \in Range(x.calls) : c.n # l.id THEN "light-other"
                   ELSE IF ~NearV(x.p, Add(Out(l.R, vec("position", <<0, 0, 0>>)), l.T), 20) THEN "light-position"
                   ELSE IF ~NearV(x.d, Out(l.R, vec("direction", <<0, 0, ONE>>)), 200) THEN "light-direction"
                   ELSE IF x.w # (IF has("wavelength") THEN of(x, "wavelength")[1].ret ELSE 5550000) THEN "light-wavelength"
                   ELSE IF x.source # l.id THEN "light-source"
                   ELSE "ok"
      bad == {k \in 1..n : one(k) # "ok"}
  IN IF n # r.asked THEN "light-count" ELSE IF bad = {} THEN "ok" ELSE one(CHOOSE k \in bad : \A m \in bad : k <= m)
Clause(r) == CASE r.kind = "trace" -> IF r.raised # "" THEN "raised" ELSE Walk(r, 1)
               [] r.kind = "emit" -> IF r.raised # "" THEN "raised" ELSE EmitClause(r)
               [] r.kind = "bad" -> IF r.raised = "ValueError" THEN "ok" ELSE "bad-answer-accepted"
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ PrintT(<<"V", i, Clause(Recs[i])>>) /\ i' = i + 1
===============================================================================
