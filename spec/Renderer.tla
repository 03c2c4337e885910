------------------------------- MODULE Renderer -------------------------------
(* The viewer's contents while histories, single rays, lines and scenes are    *)
(* drawn, taken away and cleared.  The renderer keeps a queue of what it drew  *)
(* for each history; the display must always be exactly what the latest        *)
(* histories (and everything else not taken away) call for.                    *)
EXTENDS RenderDef, TLC
CONSTANTS Limits, Depth, Tell
None == 0
Shapes == << <<"generate", "exit">>, <<"generate", "transmit", "exit">>, <<"generate", "transmit", "transmit", "exit">>,
             <<"generate", "transmit", "absorb", "nonradiative">>, <<"generate", "reflect", "exit">>, <<"generate">>,
             <<"generate", "transmit", "absorb", "emit", "reflect", "transmit", "exit">>, <<"generate", "transmit", "kill">> >>
VARIABLES max, log, disp, queue, last, drawn, gone, done
vars == <<max, log, disp, queue, last, drawn, gone, done>>
\* drawing k: its parts are <<k, "line", j>> and <<k, "ball", j>>
Parts(k, o) == CASE o[1] = "hist" -> {<<k, "line", j>> : j \in Segments(Shapes[o[2]], o[3])} \cup (IF o[4] THEN {<<k, "ball", j>> : j \in Balls(Shapes[o[2]], o[3])} ELSE {})
                 [] o[1] = "path" -> {<<k, "line", j>> : j \in 1..o[2]}
                 [] OTHER -> {<<k, "line", 1>>}
Draws(o) == IF o[1] = "hist" THEN Fate(Shapes[o[2]], o[3]) = "drawn" ELSE o[1] \in {"ray", "path", "seg", "poly"} /\ (o[1] # "path" \/ o[2] > 0)
k == Len(log) + 1
Log(o) == log' = Append(log, o) /\ UNCHANGED <<max, done>>
Hist(s, m, b) ==
  LET o == <<"hist", s, m, b>> IN
  /\ Log(o) /\ UNCHANGED <<gone, last>>
  /\ IF ~Draws(o) THEN UNCHANGED <<disp, queue, drawn>>
     ELSE LET q == Append(queue, Parts(k, o))
              over == max # None /\ Len(q) > max
          IN /\ drawn' = drawn \cup {k}
             /\ queue' = (IF over THEN Tail(q) ELSE q)
             /\ disp' = (disp \cup Parts(k, o)) \ (IF over THEN q[1] ELSE {})
Other(o) == /\ Log(o) /\ UNCHANGED <<queue, gone, last>>
            /\ IF Draws(o) THEN disp' = disp \cup Parts(k, o) /\ drawn' = drawn \cup {k} ELSE UNCHANGED <<disp, drawn>>
Take(t) == /\ Log(<<"take", t>>) /\ disp' = disp \ Parts(t, log[t]) /\ gone' = gone \cup Parts(t, log[t]) /\ UNCHANGED <<queue, drawn, last>>
TakeOne(t) == /\ Log(<<"one", t>>) /\ UNCHANGED <<queue, drawn, last>>
              /\ \E p \in Parts(t, log[t]) : disp' = disp \ {p} /\ gone' = gone \cup {p}
Clear == /\ Log(<<"clear">>) /\ disp' = {} /\ last' = 0 /\ gone' = gone \cup UNION {Parts(j, log[j]) : j \in drawn} /\ UNCHANGED <<queue, drawn>>
Render(v) == /\ Log(<<"render", v>>) /\ last' = v /\ UNCHANGED <<disp, queue, drawn, gone>>
Bad == Log(<<"hist", 2, "long", TRUE>>) /\ UNCHANGED <<disp, queue, last, drawn, gone>>
Init == max \in Limits /\ log = <<>> /\ disp = {} /\ queue = <<>> /\ last = 0 /\ drawn = {} /\ gone = {} /\ done = FALSE
Act == \/ \E s \in 1..Len(Shapes), m \in {"short", "exclude"}, b \in BOOLEAN : Hist(s, m, b)
       \/ Bad \/ Clear \/ \E v \in 1..2 : Render(v)
       \/ \E o \in {<<"ray">>, <<"seg">>, <<"poly">>, <<"path", 0>>, <<"path", 1>>, <<"path", 3>>} : Other(o)
       \/ \E t \in drawn : Take(t) \/ TakeOne(t)
\* a quick way through: mostly histories
Some == LET h == Hist(RandomElement(1..Len(Shapes)), RandomElement({"short", "exclude"}), RandomElement(BOOLEAN)) IN
        LET d == RandomElement(1..12) IN
        IF d <= 7 THEN h ELSE IF d = 8 THEN Other(RandomElement({<<"ray">>, <<"seg">>, <<"poly">>, <<"path", 0>>, <<"path", 1>>, <<"path", 3>>}))
        ELSE IF d = 9 /\ drawn # {} THEN Take(RandomElement(drawn)) ELSE IF d = 10 /\ drawn # {} THEN TakeOne(RandomElement(drawn))
        ELSE IF d = 11 THEN (IF RandomElement(1..4) = 1 THEN Clear ELSE IF RandomElement(1..3) = 1 THEN Bad ELSE h)
        ELSE Render(RandomElement(1..2))
Report == /\ Len(log) = Depth /\ Tell /\ ~done /\ done' = TRUE /\ UNCHANGED <<max, log, disp, queue, last, drawn, gone>> /\ PrintT(<<"V", max, log>>)
Next == IF Len(log) < Depth THEN (IF Tell THEN Some ELSE Act) ELSE Report
\* ---- what should be on display, said without the queue
Hists == {j \in drawn : log[j][1] = "hist"}
Latest == {j \in Hists : max = None \/ Cardinality({i \in Hists : i > j}) < max}
Wanted == (UNION {Parts(j, log[j]) : j \in Latest \cup (drawn \ Hists)}) \ gone
Inv == /\ disp = Wanted
       /\ max = None \/ Cardinality({p[1] : p \in disp} \cap Hists) <= max       \* at most the limit
       /\ \A p \in disp : p[1] \notin drawn \ (Latest \cup (drawn \ Hists))       \* nothing of a dropped history
       /\ Len(queue) <= (IF max = None THEN Depth ELSE max)
===============================================================================
