------------------------------- MODULE Throws -------------------------------
(* Judges which rays a simulation threw: n asked, lights in scene order with   *)
(* their declared names and poses; got: per history in order [light, p, d].    *)
(* Several workers take consecutive parts of the same cycle of lights.         *)
EXTENDS Fixed, FiniteSets, TLC, Json, IOUtils
RECS == ndJsonDeserialize(IOEnv.RECS)
VARIABLES h, done
R == RECS[h]
NL == Len(R.lights)
LightOf(k) == R.lights[((k - 1) % NL) + 1]
Mid(g, l) == LET q == MatTVec(l.R, Sub(g.p, l.T)) m == MatTVec(l.R, g.d) IN
             NearV(q, l.p, 6) /\ NearV(m, l.d, 60)
CountOf(name) == Cardinality({k \in DOMAIN R.got : R.got[k].light = name})
Share(i) == Cardinality({k \in 1..R.n : ((k - 1) % NL) + 1 = i})
C(x) == "C12." \o x
Verdict ==
  CASE R.refused # "" /\ R.seeded /\ R.shared /\ R.threw = 0 -> "ok"
    [] R.refused # "" -> C("raised")
    [] R.seeded /\ R.shared -> C("seed_with_several_workers_accepted")
    [] Len(R.got) # R.n -> C("number_of_histories")
    [] R.ordered /\ \E k \in DOMAIN R.got : R.got[k].light # LightOf(k).name -> C("lights_not_in_turn")
    [] \E i \in 1..NL : CountOf(R.lights[i].name) # Share(i) -> C("unfair_share")
    [] \E k \in DOMAIN R.got : ~\E i \in 1..NL : R.lights[i].name = R.got[k].light /\ Mid(R.got[k], R.lights[i]) -> C("not_in_the_world_frame")
    [] R.again # "" /\ R.again # R.digest -> C("seeded_run_not_reproduced")
    [] R.repeats > 0 -> C("workers_share_a_random_sequence")
    [] OTHER -> "ok"
Init == h \in 1..Len(RECS) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED h /\ PrintT(<<"V", h, Verdict>>)
=============================================================================
