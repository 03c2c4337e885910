------------------------------- MODULE Photon -------------------------------
(* The life of one ray: the state machine both tracers implement.           *)
(*                                                                          *)
(* A world W is a record                                                    *)
(*   root     the outermost volume                                          *)
(*   vol      vol[n] = [encl |-> seq of volumes strictly containing n,      *)
(*                      innermost first; comps |-> seq of component ids;    *)
(*                      surf |-> "fresnel" | "null"]                        *)
(*   touch    sequence of pairs <<a,b>> of volumes sharing a face           *)
(*   comp     comp[c] = [type, qy]  (qy scaled by 1e8)                      *)
(* The ray's state st:                                                      *)
(*   phase    "new" | "fly" | "absorbed" | "end"                            *)
(*   here     volume the ray is in          (0 = not generated yet)         *)
(*   comp     component that has absorbed it (0 = none)                     *)
(*   steps    completed steps (surface interactions and re-emissions)       *)
(*   n        events so far                                                 *)
(*   src      component that last emitted it, 0 = the light                 *)
(* An event e carries k (kind), hit, con, adj, comp.                        *)
EXTENDS Integers, Sequences, FiniteSets

QONE == 100000000
Terminal == {"EXIT", "NONRADIATIVE", "REACT", "KILL"}
Outcome  == {"EMIT", "SCATTER", "NONRADIATIVE", "REACT"}
Kinds    == {"GENERATE", "REFLECT", "TRANSMIT", "ABSORB"} \cup Terminal \cup Outcome

NewRay == [phase |-> "new", here |-> 0, comp |-> 0, steps |-> 0, n |-> 0, src |-> 0]

Rng(s) == { s[i] : i \in DOMAIN s }
Vols(W) == DOMAIN W.vol
Holder(W, v) == IF W.vol[v].encl = <<>> THEN 0 ELSE W.vol[v].encl[1]
Touching(W, a, b) == \E i \in DOMAIN W.touch : W.touch[i] = <<a, b>> \/ W.touch[i] = <<b, a>>
(* Volumes that may share a boundary point with c                           *)
Neighbour(W, c, a) ==
  \/ Holder(W, a) = c \/ Holder(W, c) = a \/ Touching(W, c, a)

(* Which outcome a component may give to an absorbed ray                    *)
OutcomeAllowed(W, c, k) ==
  LET t == W.comp[c].type  q == W.comp[c].qy IN
  CASE k = "REACT"        -> t = "reactor"
    [] k = "NONRADIATIVE" -> t = "absorber" \/ (t \in {"scatterer", "luminophore"} /\ q < QONE)
    [] k = "SCATTER"      -> t = "scatterer" /\ q > 0
    [] k = "EMIT"         -> t = "luminophore" /\ q > 0
    [] OTHER              -> FALSE

(* First clause of the contract that event e violates in state st, or "ok". *)
(* P selects one property ("C01", ...) or "all".                            *)
(* B: [steps |-> step budget, room |-> event budget or 0 (none)]            *)
(* e.over: the ray's path budget was already exceeded before this event     *)
(* e.full: no room left in the event budget for a further two-event step    *)
G01(W, st, e) ==
  CASE st.phase = "end" -> "C01.event_after_terminal"
    [] st.phase = "new" -> IF e.k = "GENERATE" THEN "ok" ELSE "C01.first_event_not_generate"
    [] e.k = "GENERATE" -> "C01.second_generate"
    [] e.k \notin Kinds -> "C01.unknown_event"
    [] st.phase = "absorbed" ->
         IF e.k \notin Outcome THEN "C01.absorb_without_outcome"
         ELSE IF e.comp # st.comp THEN "C01.outcome_of_other_component"
         ELSE IF e.con # st.here THEN "C01.outcome_in_other_container"
         ELSE "ok"
    [] e.k \in Outcome -> "C01.outcome_without_absorb"
    [] e.k \in {"REFLECT", "TRANSMIT"} /\ e.hit = W.root -> "C01.continued_at_world_boundary"
    [] OTHER -> "ok"

BudgetKill(B, e) == e.k = "KILL" /\ B.room > 0 /\ e.con = 0

G02(W, B, st, e) ==
  CASE e.k = "GENERATE" -> "ok"
    [] BudgetKill(B, e) -> "ok"
    [] e.con # st.here -> "C02.container_is_not_where_the_ray_is"
    [] e.k = "EXIT" -> IF e.hit # W.root THEN "C02.exit_not_through_root"
                       ELSE IF st.here # W.root THEN "C02.exit_from_inner_volume" ELSE "ok"
    [] e.k \in {"REFLECT", "TRANSMIT"} ->
         IF e.adj \notin Vols(W) \/ e.adj = e.con THEN "C02.adjacent_missing"
         ELSE IF e.hit \notin {e.con, e.adj} THEN "C02.hit_is_neither_side"
         ELSE IF ~Neighbour(W, e.con, e.adj) THEN "C02.adjacent_is_not_a_neighbour"
         ELSE "ok"
    [] OTHER -> "ok"

G04(W, st, e) ==
  IF e.k = "REFLECT" /\ e.hit \in Vols(W) /\ W.vol[e.hit].surf = "null" THEN "C04.null_surface_reflected" ELSE "ok"

G05(W, st, e) ==
  IF e.k = "ABSORB" /\ st.here \in Vols(W) /\ e.comp \notin Rng(W.vol[st.here].comps)
  THEN "C05.component_not_of_container" ELSE "ok"

G06(W, st, e) ==
  IF st.phase = "absorbed" /\ e.k \in Outcome /\ st.comp \in DOMAIN W.comp /\ ~OutcomeAllowed(W, st.comp, e.k)
  THEN "C06.outcome_not_of_component" ELSE "ok"

G08(B, st, e) ==
  CASE B.room > 0 /\ st.n >= B.room -> "C08.event_budget_exceeded"
    [] st.phase # "fly" -> "ok"
    [] BudgetKill(B, e) -> IF e.full THEN "ok" ELSE "C08.killed_with_room_left"
    [] e.k = "KILL" -> IF st.steps < B.steps /\ ~e.over THEN "C08.killed_within_budget" ELSE "ok"
    [] st.steps >= B.steps -> "C08.step_budget_exceeded"
    [] e.over -> "C08.path_budget_exceeded"
    [] OTHER -> "ok"

Pick1(a, b) == IF a # "ok" THEN a ELSE b
Clause(P, W, B, st, e) ==
  LET on(x, v) == IF P = "all" \/ P = x THEN v ELSE "ok"
      c1 == on("C01", G01(W, st, e))
      c2 == on("C02", G02(W, B, st, e))
      c8 == on("C08", G08(B, st, e))
      c4 == on("C04", G04(W, st, e))
      c5 == on("C05", G05(W, st, e))
      c6 == on("C06", G06(W, st, e))
  IN Pick1(c1, Pick1(c2, Pick1(c8, Pick1(c4, Pick1(c5, c6)))))

After(W, st, e) ==
  [phase |-> CASE e.k \in Terminal -> "end" [] e.k = "ABSORB" -> "absorbed" [] OTHER -> "fly",
   here  |-> CASE e.k = "GENERATE" -> e.con [] e.k = "TRANSMIT" -> e.adj [] OTHER -> st.here,
   comp  |-> IF e.k = "ABSORB" THEN e.comp ELSE 0,
   steps |-> IF e.k \in {"REFLECT", "TRANSMIT", "EMIT", "SCATTER"} THEN st.steps + 1 ELSE st.steps,
   n     |-> st.n + 1,
   src   |-> IF e.k \in {"EMIT", "SCATTER"} THEN e.comp ELSE st.src]

(* A finished history must have ended                                       *)
EndClause(P, st) ==
  CASE P \notin {"all", "C01", "C08"} -> "ok"
    [] st.phase = "end" -> "ok"
    [] P = "C08" -> "C08.ray_not_ended"
    [] st.phase = "new" -> "C01.empty_history"
    [] st.phase = "absorbed" -> "C01.absorb_without_outcome"
    [] OTHER -> "C01.no_terminal_event"
=============================================================================
