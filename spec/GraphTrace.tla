------------------------------ MODULE GraphTrace ------------------------------
(* Judges recorded histories of operations on real nodes, at any angles: each  *)
(* step relates the pose before and after; after each step the location, the   *)
(* rigidity of the pose and conversions between nodes along the tree path are  *)
(* recomputed.  Rotations (rows) and directions scaled by 1e8, lengths by 1e6. *)
EXTENDS Fixed, TLC, Json, IOUtils, FiniteSets
Recs == ndJsonDeserialize(IOEnv.RECS)
Tol == 40
TolR == 3000          \* 3e-5 in a rotation's entries after arithmetic here
Col(R, k) == <<R[1][k], R[2][k], R[3][k]>>
CrossS(a, b) == <<MulS(a[2], b[3]) - MulS(a[3], b[2]), MulS(a[3], b[1]) - MulS(a[1], b[3]), MulS(a[1], b[2]) - MulS(a[2], b[1])>>
Rigid(R) == /\ \A i \in 1..3, j \in 1..3 : Near(Dot(R[i], R[j]), IF i = j THEN ONE ELSE 0, 200)
            /\ NearV(CrossS(R[1], R[2]), R[3], 200)
NearR(A, B, t) == \A i \in 1..3 : NearV(A[i], B[i], t)
\* turning v by angle (cosine c, sine s) about unit axis k
Turn(k, c, s, v) == Add(Add(Scale(c, v), Scale(s, CrossS(k, v))), Scale(MulS(Dot(k, v), ONE - c), k))
Turned(k, c, s, R) == LET x == Turn(k, c, s, Col(R, 1)) y == Turn(k, c, s, Col(R, 2)) z == Turn(k, c, s, Col(R, 3))
                      IN <<<<x[1], y[1], z[1]>>, <<x[2], y[2], z[2]>>, <<x[3], y[3], z[3]>>>>
\* ---- one step: op = [node, name, v, c, s], before and after are poses of all nodes
StepOk(op, b, a) ==
  LET n == op.node IN
  /\ \A m \in DOMAIN a : m # n => a[m] = b[m]
  /\ CASE op.name = "translate" -> NearR(a[n].R, b[n].R, 2) /\ NearV(a[n].t, Add(b[n].t, op.v), 3)
       [] op.name = "locate"    -> NearR(a[n].R, b[n].R, 2) /\ NearV(a[n].t, op.v, 2)
       [] op.name = "rotate"    -> NearR(a[n].R, Turned(op.v, op.c, op.s, b[n].R), 60) /\ NearV(a[n].t, b[n].t, 3)
       [] op.name = "look"      -> NearV(Col(a[n].R, 3), op.v, 60) /\ NearV(a[n].t, b[n].t, 3)
       [] op.name = "pose"      -> NearR(a[n].R, op.R, 2) /\ NearV(a[n].t, op.v, 2)
       [] op.name = "parent"    -> a[n] = b[n]
RECURSIVE ToRoot(_, _, _, _)
ToRoot(par, ps, n, p) == IF n = 0 THEN p ELSE ToRoot(par, ps, par[n], Add(MatVec(ps[n].R, p), ps[n].t))
RECURSIVE FromRoot(_, _, _, _)
FromRoot(par, ps, n, p) == IF n = 0 THEN p ELSE MatTVec(ps[n].R, Sub(FromRoot(par, ps, par[n], p), ps[n].t))
RECURSIVE VToRoot(_, _, _, _)
VToRoot(par, ps, n, v) == IF n = 0 THEN v ELSE VToRoot(par, ps, par[n], MatVec(ps[n].R, v))
RECURSIVE VFromRoot(_, _, _, _)
VFromRoot(par, ps, n, v) == IF n = 0 THEN v ELSE MatTVec(ps[n].R, VFromRoot(par, ps, par[n], v))
\* a conversion asked of the code: c = [a, b, p, q, v, w]
ConversionOk(par, ps, c) == /\ NearV(c.q, FromRoot(par, ps, c.b, ToRoot(par, ps, c.a, c.p)), Tol)
                            /\ NearV(c.w, VFromRoot(par, ps, c.b, VToRoot(par, ps, c.a, c.v)), 200)
                            /\ NearV(c.back, c.p, 2)
                            /\ NearV(c.via, c.q, 2)
StepClause(s, b) ==
  IF ~StepOk(s.op, b, s.poses) THEN "step:" \o s.op.name
  ELSE IF \E n \in DOMAIN s.poses : ~NearV(s.poses[n].loc, s.poses[n].t, 2) THEN "location"
  ELSE IF \E n \in DOMAIN s.poses : ~Rigid(s.poses[n].R) THEN "not-rigid"
  ELSE IF \E k \in DOMAIN s.asked : ~ConversionOk(s.par, s.poses, s.asked[k]) THEN "conversion"
  ELSE "ok"
Before(r, k) == IF k = 1 THEN r.start ELSE r.steps[k - 1].poses
VARIABLES i, k
Init == i = 1 /\ k = 1
Next == /\ i <= Len(Recs)
        /\ LET c == StepClause(Recs[i].steps[k], Before(Recs[i], k))
           IN IF c # "ok" \/ k = Len(Recs[i].steps)
              THEN PrintT(<<"V", i, c, k>>) /\ i' = i + 1 /\ k' = 1
              ELSE i' = i /\ k' = k + 1
===============================================================================
