------------------------------ MODULE MCPhoton ------------------------------
(* Exhaustive exploration of Photon over small worlds.  The ray may do       *)
(* anything the contract allows; the invariants say what that implies for    *)
(* whole histories.                                                          *)
EXTENDS Photon, TLC
CONSTANTS MaxSteps, Room, Pick
VARIABLES W, st, log, over

Vol(e, c, s) == [encl |-> e, comps |-> c, surf |-> s]
C(t, q) == [type |-> t, qy |-> q]
H == QONE \div 2
WorldsAll ==
  << [root |-> 1, vol |-> <<Vol(<<>>, <<>>, "fresnel")>>, touch |-> <<>>, comp |-> <<>>],
     [root |-> 1, vol |-> <<Vol(<<>>, <<1>>, "fresnel"), Vol(<<1>>, <<2, 3>>, "fresnel")>>, touch |-> <<>>,
      comp |-> <<C("scatterer", QONE), C("luminophore", H), C("absorber", 0)>>],
     [root |-> 1, vol |-> <<Vol(<<>>, <<>>, "null"), Vol(<<1>>, <<1>>, "null"), Vol(<<2, 1>>, <<2, 3>>, "fresnel")>>,
      touch |-> <<>>, comp |-> <<C("reactor", 0), C("luminophore", QONE), C("scatterer", 0)>>],
     [root |-> 1, vol |-> <<Vol(<<>>, <<>>, "fresnel"), Vol(<<1>>, <<1>>, "fresnel"), Vol(<<1>>, <<2>>, "null")>>,
      touch |-> <<<<2, 3>>>>, comp |-> <<C("luminophore", QONE), C("reactor", 0)>>] >>
Worlds == IF Pick = 0 THEN Rng(WorldsAll) ELSE {WorldsAll[Pick]}

vars == <<W, st, log, over>>
Ev(k, h, c, a, p) == [k |-> k, hit |-> h, con |-> c, adj |-> a, comp |-> p, over |-> over,
                      full |-> Room > 0 /\ log # <<>> /\ Len(log) >= Room - 2]
B == [steps |-> MaxSteps, room |-> Room]
Comps(c) == Rng(W.vol[c].comps)

Do(e) == /\ Clause("all", W, B, st, e) = "ok"
         /\ st' = After(W, st, e) /\ log' = Append(log, e) /\ UNCHANGED W

Init == /\ W \in Worlds /\ st = NewRay /\ log = <<>> /\ over = FALSE
Room1 == Room = 0 \/ st.phase = "absorbed" \/ st.n < Room - 2   \* room for a two-event step
Generate == \E c \in Vols(W) : Do(Ev("GENERATE", 0, c, 0, 0)) /\ over' \in BOOLEAN
Reflect == Room1 /\ st.phase = "fly" /\ \E h \in Vols(W), a \in Vols(W) : Do(Ev("REFLECT", h, st.here, a, 0)) /\ over' \in {over, TRUE}
Transmit == Room1 /\ st.phase = "fly" /\ \E h \in Vols(W), a \in Vols(W) : Do(Ev("TRANSMIT", h, st.here, a, 0)) /\ over' \in {over, TRUE}
Absorb == Room1 /\ st.phase = "fly" /\ \E c \in Comps(st.here) : Do(Ev("ABSORB", 0, st.here, 0, c)) /\ over' \in {over, TRUE}
Emit == Do(Ev("EMIT", 0, st.here, 0, st.comp)) /\ UNCHANGED over
Scatter == Do(Ev("SCATTER", 0, st.here, 0, st.comp)) /\ UNCHANGED over
NonRad == Do(Ev("NONRADIATIVE", 0, st.here, 0, st.comp)) /\ UNCHANGED over
React == Do(Ev("REACT", 0, st.here, 0, st.comp)) /\ UNCHANGED over
Exit == Room1 /\ Do(Ev("EXIT", W.root, st.here, 0, 0)) /\ UNCHANGED over
Kill == Do(Ev("KILL", 0, st.here, 0, 0)) /\ UNCHANGED over
RoomKill == st.phase = "fly" /\ Room > 0 /\ Do(Ev("KILL", 0, 0, 0, 0)) /\ UNCHANGED over

Next == Generate \/ Reflect \/ Transmit \/ Absorb \/ Emit \/ Scatter \/ NonRad \/ React \/ Exit \/ Kill \/ RoomKill
Fair == WF_vars(Next)
Spec == Init /\ [][Next]_vars /\ Fair

K(i) == log[i].k
N == Len(log)
TypeOK == st.n = N /\ st.phase \in {"new", "fly", "absorbed", "end"}
OneGenerate == \A i \in 1..N : (K(i) = "GENERATE") <=> (i = 1)
OneTerminal == \A i \in 1..N : K(i) \in Terminal => i = N
EndedIffTerminal == (st.phase = "end") <=> (N > 0 /\ K(N) \in Terminal)
AbsorbPaired == \A i \in 1..N : K(i) \in Outcome => (i > 1 /\ K(i-1) = "ABSORB" /\ log[i].comp = log[i-1].comp /\ log[i].con = log[i-1].con)
AbsorbResolved == \A i \in 1..(N-1) : K(i) = "ABSORB" => K(i+1) \in Outcome
Continuity == \A i \in 2..N : \A j \in {i-1} :
  (log[i].con # 0) => log[i].con = (CASE K(j) = "TRANSMIT" -> log[j].adj [] OTHER -> log[j].con)
StepsBounded == st.steps <= MaxSteps
RoomBounded == Room = 0 \/ N <= Room
Invs == TypeOK /\ OneGenerate /\ OneTerminal /\ EndedIffTerminal /\ AbsorbPaired /\ AbsorbResolved /\ Continuity /\ StepsBounded /\ RoomBounded
Ends == <>(st.phase = "end")
=============================================================================
