----------------------------- MODULE PhotonTrace -----------------------------
(* Judges recorded ray histories (Python tracer and engine) against Photon:  *)
(* the structural contract of every event, plus the geometry, kinematics and *)
(* physics that tie consecutive events together.  One behaviour per record;  *)
(* the verdict <<"V", record, clause, event>> is printed once per record.    *)
EXTENDS Photon, Physics, TLC, Json, IOUtils

RECS == ndJsonDeserialize(IOEnv.RECS)
WORLDS == ndJsonDeserialize(IOEnv.WORLDS)
P == IOEnv.PROP

VARIABLES h, i, st, bad

On(x) == P = "all" \/ P = x
R == RECS[h]
W == WORLDS[R.sid]
NEv == Len(R.ev)
E(k) == R.ev[k]
Budget == [steps |-> R.maxsteps, room |-> R.room]

(* -------------------------------- geometry ------------------------------ *)
TOL == 30          \* 3e-5 cm
Sq(x) == MulS(10 * x, 10 * x)                 \* squared length, scale 1e6
Local(v, p) == MatTVec(W.vol[v].R, Sub(p, W.vol[v].T))
Half(v, k) == W.vol[v].size[k] \div 2
Prod6(a, b) == MulS(10 * a, 10 * b)           \* lengths to area, scale 1e6
(* inside with margin m (negative: tolerate m outside)                      *)
InsideL(v, q, m) ==
  LET s == W.vol[v].shape  z == W.vol[v].size IN
  CASE s = "box" -> \A k \in 1..3 : Abs(q[k]) <= Half(v, k) - m
    [] s = "sphere" -> LET r == z[1] - m IN r > 0 /\ Sq(q[1]) + Sq(q[2]) + Sq(q[3]) <= Sq(r)
    [] OTHER -> LET r == z[2] - m IN r > 0 /\ Abs(q[3]) <= Half(v, 1) - m /\ Sq(q[1]) + Sq(q[2]) <= Sq(r)
Inside(v, p, m) == InsideL(v, Local(v, p), m)
NearSq(a2, r) == Abs(a2 - Sq(r)) <= Prod6(2 * r, TOL) + 12
OnSurfaceL(v, q) ==
  LET s == W.vol[v].shape  z == W.vol[v].size IN
  CASE s = "box" -> InsideL(v, q, -TOL) /\ \E k \in 1..3 : Near(Abs(q[k]), Half(v, k), TOL)
    [] s = "sphere" -> NearSq(Sq(q[1]) + Sq(q[2]) + Sq(q[3]), z[1])
    [] OTHER -> \/ Near(Abs(q[3]), Half(v, 1), TOL) /\ Sq(q[1]) + Sq(q[2]) <= Sq(z[2] + TOL)
                \/ NearSq(Sq(q[1]) + Sq(q[2]), z[2]) /\ Abs(q[3]) <= Half(v, 1) + TOL
OnSurface(v, p) == OnSurfaceL(v, Local(v, p))
(* n is the outward unit normal of v's surface at p                         *)
NT == 3000         \* 3e-5
NormalOk(v, p, n) ==
  LET q == Local(v, p)  m == MatTVec(W.vol[v].R, n)  s == W.vol[v].shape  z == W.vol[v].size
      axis(k, sg) == NearV(m, [j \in 1..3 |-> IF j = k THEN sg * ONE ELSE 0], NT)
  IN CASE s = "box" -> \E k \in 1..3 : \E sg \in {1, -1} : Near(q[k], sg * Half(v, k), TOL) /\ axis(k, sg)
       [] s = "sphere" -> NearV(Scale(z[1], m), q, TOL + z[1] \div 20000)
       [] OTHER -> \/ \E sg \in {1, -1} : Near(q[3], sg * Half(v, 1), TOL) /\ axis(3, sg)
                   \/ Near(m[3], 0, NT) /\ Near(MulS(z[2], m[1]), q[1], TOL + z[2] \div 20000)
                                        /\ Near(MulS(z[2], m[2]), q[2], TOL + z[2] \div 20000)
(* c is the innermost volume at p                                           *)
MARGIN == 200
InnermostAt(c, p) ==
  /\ Inside(c, p, -MARGIN)
  /\ \A v \in Vols(W) : v # c /\ Inside(v, p, MARGIN) => v \in Rng(W.vol[c].encl)

(* ------------------------------- per-event ------------------------------ *)
PE == E(i - 1)
Seg == E(i).dl
Moves(e) == e.k \in {"REFLECT", "TRANSMIT", "ABSORB", "EXIT"}
Fits(x) == Abs(x) < 100000000
Sane(e) == /\ \A k \in 1..3 : Fits(e.p[k]) /\ Abs(e.d[k]) < 150000000
           /\ e.w > 0 /\ Fits(e.w) /\ Abs(e.dl) < 100000000 /\ Abs(e.du) < 1000000000
UnitVec(d) == Near(Dot(d, d), ONE, 60)
At(f) == Add(PE.p, Scale(f * (Seg \div 8), PE.d))
KnownVol(v) == v \in Vols(W)
KnownComp(c) == c \in DOMAIN W.comp

Geo(e) ==      \* C02, numeric part
  LET len == e.dl IN
  CASE ~Moves(e) -> "ok"
    [] ~KnownVol(e.con) -> "C02.unknown_container"
    [] len < -2 -> "ok"
    [] len > 2000 /\ \E f \in {1, 4, 7} : ~InnermostAt(e.con, Add(PE.p, Scale((len \div 8) * f, PE.d)))
         -> "C02.segment_not_inside_container"
    [] e.k = "ABSORB" -> IF Inside(e.con, e.p, -MARGIN) THEN "ok" ELSE "C02.absorbed_outside_container"
    [] e.k = "EXIT" -> IF ~OnSurface(W.root, e.p) THEN "C02.exit_off_the_world_surface" ELSE "ok"
    [] e.k \in {"REFLECT", "TRANSMIT"} /\ ~KnownVol(e.hit) -> "C02.unknown_hit"
    [] e.k \in {"REFLECT", "TRANSMIT"} /\ ~OnSurface(e.hit, e.p) -> "C02.event_off_the_hit_surface"
    [] e.k \in {"REFLECT", "TRANSMIT"} /\ KnownVol(e.adj) /\ ~OnSurface(e.adj, e.p) /\ ~OnSurface(e.con, e.p)
         -> "C02.adjacent_does_not_touch_event"
    [] OTHER -> "ok"

CT == 40
OptLen(n, len) == Prod6(n, len)      \* n * len, scale 1e6
Kin(e) ==      \* C03
  LET len == e.dl
      con == IF KnownVol(st.here) THEN st.here ELSE W.root
      n == W.vol[con].n
      du == e.du
  IN
  CASE ~UnitVec(e.d) -> "C03.direction_not_unit"
    [] len < 0 -> "C03.travelled_decreased"
    [] ~Moves(e) /\ len # 0 -> "C03.travelled_without_moving"
    [] ~NearV(e.p, Add(PE.p, Scale(len, PE.d)), 12) -> "C03.position_off_the_straight_path"
    [] Moves(e) /\ ~Near(du, OptLen(n, len), 12 + len \div 1000000) -> "C03.duration_not_optical_path"
    [] e.k = "EMIT" /\ (du < 0 \/ (KnownComp(e.comp) /\ W.comp[e.comp].taurad = 0 /\ du # 0)) -> "C03.emission_delay"
    [] e.k \in {"NONRADIATIVE", "REACT"} /\ (du < 0 \/ (KnownComp(e.comp) /\ W.comp[e.comp].taunr = 0 /\ du # 0)) -> "C03.loss_delay"
    [] e.k \in {"KILL", "SCATTER"} /\ du # 0 -> "C03.time_passed_without_cause"
    [] e.k # "EMIT" /\ e.w # PE.w -> "C03.wavelength_changed"
    [] e.k \notin {"REFLECT", "TRANSMIT", "EMIT", "SCATTER"} /\ e.d # PE.d -> "C03.direction_changed"
    [] e.s # (IF e.k \in {"EMIT", "SCATTER"} THEN e.comp ELSE PE.s) -> "C03.source"
    [] OTHER -> "ok"

(* --- surfaces ----------------------------------------------------------- *)
Tang(d, n) == Sub(d, Scale(Dot(d, n), n))
PE_con == IF KnownVol(E(i).con) THEN E(i).con ELSE W.root
N1 == W.vol[PE_con].n
N2 == IF KnownVol(E(i).adj) THEN W.vol[E(i).adj].n ELSE N1
Optics(e) ==   \* C04
  LET n == e.nrm
      cin == Dot(PE.d, n)  cout == Dot(e.d, n)
      c == Min2(Abs(cin), ONE)
      s2 == SinT2(c, N1, N2)
      tir == N2 < N1 /\ s2 > ONE + 20000
      fres == W.vol[e.hit].surf = "fresnel"
      drawn == E(i).draw >= 0 /\ fres /\ ~tir /\ s2 < ONE - 20000 /\ c > 200000
      r == FresnelR(c, N1, N2)
  IN
  CASE e.k \notin {"REFLECT", "TRANSMIT"} -> "ok"
    [] ~KnownVol(e.hit) \/ ~KnownVol(e.con) \/ ~KnownVol(e.adj) -> "ok"
    [] ~e.hasn \/ ~NormalOk(e.hit, e.p, n) -> "C04.normal"
    [] e.k = "REFLECT" /\ ~NearV(e.d, Sub(PE.d, Scale(2 * cin, n)), CT * 10) -> "C04.not_specular"
    [] e.k = "TRANSMIT" /\ ~fres /\ ~NearV(e.d, PE.d, CT) -> "C04.null_surface_bent_the_ray"
    [] e.k = "TRANSMIT" /\ fres /\ tir -> "C04.transmitted_beyond_critical_angle"
    [] e.k = "TRANSMIT" /\ fres /\ Abs(cin) > 200000 /\ ~((cin > 0) = (cout > 0)) -> "C04.transmitted_ray_turned_back"
    [] e.k = "TRANSMIT" /\ fres /\
         ~NearV(Scale(N1, Tang(PE.d, n)), Scale(N2, Tang(e.d, n)), 60) -> "C04.snell"
    [] drawn /\ e.k = "REFLECT" /\ E(i).draw > r + 3000 -> "C04.reflected_above_reflectance"
    [] drawn /\ e.k = "TRANSMIT" /\ E(i).draw < r - 3000 -> "C04.transmitted_below_reflectance"
    [] OTHER -> "ok"

(* --- volume ------------------------------------------------------------- *)
Alpha(c, w) == IF W.comp[c].const THEN W.comp[c].abs[1][2] ELSE TabAt(W.comp[c].abs, w, 1)
RECURSIVE SumAlpha(_, _, _)
SumAlpha(cs, w, k) == IF k = 0 THEN 0 ELSE Alpha(cs[k], w) + SumAlpha(cs, w, k - 1)
Total(v, w) == LET cs == W.vol[v].comps IN SumAlpha(cs, w, Len(cs))
Depth(v, w) ==      \* scale 1e6, -1 = infinite
  LET a == Total(v, w) IN
  IF a < 50 \/ E(i).tau \div a >= 15 THEN -1 ELSE DivS(E(i).tau, a) \div 100
Volume(e) ==   \* C05
  LET con == st.here
      w == PE.w
      cs == W.vol[con].comps
      a == Total(con, w)
      len == e.dl
      dep == Depth(con, w)
      tol == 40 + len \div 2000 + (IF a > 0 THEN 2000000 \div a + len \div a ELSE 0)   \* rounding of tau and of the coefficients
      idx == CHOOSE k \in DOMAIN cs : cs[k] = e.comp
      lo == SumAlpha(cs, w, idx - 1)  hi == SumAlpha(cs, w, idx)
      x == MulS(E(i).draw, a)
  IN
  CASE ~Moves(e) \/ ~KnownVol(con) -> "ok"
    [] e.k = "ABSORB" /\ (~KnownComp(e.comp) \/ e.comp \notin Rng(cs)) -> "C05.component_not_of_container"
    [] e.k = "ABSORB" /\ a <= 1 -> "C05.absorbed_in_clear_volume"
    [] e.k = "ABSORB" /\ hi - lo <= 1 /\ Total(con, w + 1) <= a + 2 /\ Alpha(e.comp, w + 1) <= 3 /\ Alpha(e.comp, Max2(w - 1, 0)) <= 3 -> "C05.component_cannot_absorb_here"
    [] E(i).draw < 0 -> "ok"
    [] e.k = "ABSORB" /\ (dep < 0 \/ ~Near(len, dep, tol)) -> "C05.depth"
    [] e.k = "ABSORB" /\ (x < lo - 5 - a \div 50000 \/ x > hi + 5 + a \div 50000) -> "C05.component_share"
    [] e.k # "ABSORB" /\ dep >= 0 /\ len > dep + tol -> "C05.not_absorbed_in_time"
    [] OTHER -> "ok"

Fate(e) ==     \* C06
  LET q == W.comp[st.comp].qy
      du == e.du
      rad == e.k \in {"EMIT", "SCATTER"}
      lum == W.comp[st.comp].type \in {"scatterer", "luminophore"}
  IN
  CASE st.phase # "absorbed" \/ e.k \notin Outcome \/ ~KnownComp(st.comp) -> "ok"
    [] E(i).draw < 0 -> "ok"
    [] lum /\ rad /\ E(i).draw > q + 5 -> "C06.radiated_above_yield"
    [] lum /\ ~rad /\ E(i).draw < q - 5 -> "C06.lost_below_yield"
    [] e.k = "EMIT" /\ ~Near(du, Prod6(E(i).tau, W.comp[st.comp].taurad), 20 + Abs(du) \div 100000) -> "C06.radiative_lifetime"
    [] e.k \in {"NONRADIATIVE", "REACT"} /\ ~Near(du, Prod6(E(i).tau, W.comp[st.comp].taunr), 20 + Abs(du) \div 100000) -> "C06.nonradiative_lifetime"
    [] OTHER -> "ok"

(* --- emission ----------------------------------------------------------- *)
Emission(e) == \* C07
  LET m == W.comp[e.comp].ems
      lowest == IF R.method = "full" THEN m[1][1] ELSE Max2(m[1][1], Shift(R.method, PE.w))
      tot == Cum(m, Len(m))
      c1 == IF R.method = "full" THEN 0 ELSE CumAt(m, Shift(R.method, PE.w))
      target == c1 + MulS(E(i).draw, tot - c1)
      k == CHOOSE j \in 1..(Len(m) - 1) : Cum(m, j) <= target /\ target <= Cum(m, j + 1) /\ Cum(m, j) < Cum(m, j + 1)
      a == Cum(m, k)  b == Cum(m, k + 1)
      x == m[k][1] + MulS(m[k + 1][1] - m[k][1], DivS(target - a, b - a))
      slope == (m[k + 1][1] - m[k][1]) \div Max2(1, (b - a) \div 4)
  IN
  CASE e.k = "SCATTER" /\ e.w # PE.w -> "C07.scattering_changed_wavelength"
    [] e.k # "EMIT" \/ ~KnownComp(e.comp) -> "ok"
    [] m = <<>> -> "C07.emission_from_dark_component"
    [] e.w < m[1][1] - 2 \/ e.w > m[Len(m)][1] + 2 -> "C07.outside_emission_spectrum"
    [] e.w < lowest - 12 -> "C07.shorter_than_the_method_allows"
    [] E(i).draw >= 0 /\ target > a + 1 /\ target < b - 1 /\ ~Near(e.w, x, 60 + 6 * slope) -> "C07.not_the_drawn_wavelength"
    [] OTHER -> "ok"
Cone(e) ==     \* C07, direction in the container's frame
  IF e.k \in {"EMIT", "SCATTER"} /\ KnownComp(e.comp) /\ KnownVol(st.here)
     /\ W.comp[e.comp].phase = "cone"
     /\ MatTVec(W.vol[st.here].R, e.d)[3] < W.comp[e.comp].g - 200
  THEN "C07.direction_outside_cone" ELSE "ok"

(* ------------------------------------------------------------------------ *)
First(e) ==
  CASE e.k # "GENERATE" -> "ok"
    [] On("C03") /\ ~(NearV(e.p, R.p0, 2) /\ NearV(e.d, R.d0, 20) /\ Near(e.w, R.w0, 2) /\ e.t = 0 /\ e.u = 0 /\ e.s = 0)
         -> "C03.generated_ray_is_not_the_thrown_one"
    [] OTHER -> "ok"
Ev(e) == [k |-> e.k, hit |-> e.hit, con |-> (IF e.k = "GENERATE" THEN R.start ELSE e.con), adj |-> e.adj, comp |-> e.comp,
          over |-> i > 1 /\ R.maxpath >= 0 /\ PE.t > R.maxpath, full |-> R.room > 0 /\ st.n >= R.room - 2]
NearBudget == i > 1 /\ R.maxpath >= 0 /\ Abs(PE.t - R.maxpath) <= 3
Check(e) ==
  LET c0 == IF NearBudget /\ P = "C08" THEN "ok" ELSE Clause(P, W, Budget, st, Ev(e)) IN
  IF c0 # "ok" THEN c0
  ELSE IF i = 1 THEN First(e)
  ELSE IF ~Sane(e) \/ ~Sane(PE) THEN (IF On("C03") THEN "C03.not_a_number"
                                    ELSE IF On("C04") /\ Sane(PE) /\ e.k \in {"REFLECT", "TRANSMIT"} THEN "C04.not_a_number" ELSE "ok")
  ELSE LET c1 == IF On("C02") THEN Geo(e) ELSE "ok" IN IF c1 # "ok" THEN c1
  ELSE LET c2 == IF On("C03") THEN Kin(e) ELSE "ok" IN IF c2 # "ok" THEN c2
  ELSE LET c3 == IF On("C04") THEN Optics(e) ELSE "ok" IN IF c3 # "ok" THEN c3
  ELSE LET c4 == IF On("C05") THEN Volume(e) ELSE "ok" IN IF c4 # "ok" THEN c4
  ELSE LET c5 == IF On("C06") THEN Fate(e) ELSE "ok" IN IF c5 # "ok" THEN c5
  ELSE LET c6 == IF On("C07") THEN Emission(e) ELSE "ok" IN IF c6 # "ok" THEN c6
  ELSE IF On("C07") THEN Cone(e) ELSE "ok"

(* Floating-point resolution: at near-grazing incidence the position of the  *)
(* hit along the ray is ill-conditioned; a history is judged up to the first *)
(* such surface event.                                                       *)
GRAZE == 1000000    \* |cos| below 0.01
Grazing == LET e == E(i)  pe == PE IN
  /\ P # "C01" /\ e.k \in {"REFLECT", "TRANSMIT"} /\ i > 1 /\ e.hasn /\ Sane(e) /\ Sane(pe)
  /\ (Abs(Dot(pe.d, e.nrm)) < GRAZE \/ Abs(Dot(e.d, e.nrm)) < GRAZE)
Graze == /\ bad = "" /\ i <= NEv /\ Grazing /\ bad' = "ok" /\ UNCHANGED <<h, i, st>>
Init == h \in 1..Len(RECS) /\ i = 1 /\ st = NewRay /\ bad = ""
Step == /\ bad = "" /\ i <= NEv /\ ~Grazing
        /\ LET c == Check(E(i)) IN
           IF c = "ok" THEN bad' = "" /\ i' = i + 1 /\ st' = After(W, st, Ev(E(i)))
           ELSE bad' = c /\ UNCHANGED <<i, st>>
        /\ UNCHANGED h
Finish == /\ bad = "" /\ i = NEv + 1
          /\ bad' = LET c == EndClause(P, st) IN
                    IF R.raised # "" THEN (IF P = "all" THEN "C01" ELSE P) \o ".raised"
                    ELSE IF R.cut \/ c = "ok" THEN "ok" ELSE c
          /\ UNCHANGED <<h, i, st>>
Report == /\ bad # "" /\ bad # "done"
          /\ PrintT(<<"V", h, bad, i>>)
          /\ bad' = "done" /\ UNCHANGED <<h, i, st>>
Next == Step \/ Graze \/ Finish \/ Report
=============================================================================
