---------------------------------- MODULE Files ---------------------------------
(* The files of a simulation - the scene and the database beside it - and the    *)
(* commands which work on them, with what the user answers when asked.  The      *)
(* behaviours are printed and carried out with the real commands.                *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxSteps, Sampled
VARIABLES scene, db, log, done
vars == <<scene, db, log, done>>
Scenes == {"good", "bad", "gone"}
\* no database, something else under its name, the database of a run of so many rays
Bases == {"none", "other", "run2", "run3", "run5"}
Runs == {"run2", "run3", "run5"}
Rays(b) == CASE b = "run2" -> 2 [] b = "run3" -> 3 [] b = "run5" -> 5 [] OTHER -> 0
Answers == {"y", "n", "return", "end"}
Orders == {"told", "asked"}
Consent(order, answer) == order = "told" \/ answer = "y"
\* what a command does: whether it succeeds, and the database after it
Simulate(s, b, order, answer, new) == IF s # "good" THEN <<FALSE, b>>
                                      ELSE IF b = "none" \/ Consent(order, answer) THEN <<TRUE, new>> ELSE <<FALSE, b>>
Query(b) == <<b \in Runs, b>>
Show(s, b) == <<s = "good", b>>
Commands == {<<"simulate", o, a, n, v>> : o \in Orders, a \in Answers, n \in Runs, v \in {"plain", "viewed"}}
       \cup {<<"query", q, "", "", "">> : q \in {"count", "spectrum", "time"}} \cup {<<"show", "", "", "", "">>}
Outcome(c, s, b) == CASE c[1] = "simulate" -> Simulate(s, b, c[2], c[3], c[4]) [] c[1] = "query" -> Query(b) [] OTHER -> Show(s, b)
Init == scene \in Scenes /\ db \in Bases /\ log = <<<<scene, db>>>> /\ done = FALSE
Do == /\ ~done /\ Len(log) <= MaxSteps
      /\ \E c \in Commands : LET o == Outcome(c, scene, db) IN db' = o[2] /\ log' = Append(log, <<c, o[1], o[2]>>)
      /\ UNCHANGED <<scene, done>>
\* the user's own doing
Edit == /\ ~done /\ Sampled /\ Len(log) <= MaxSteps /\ Len(log) > 1
        /\ \E s \in Scenes \ {scene} : scene' = s /\ log' = Append(log, <<<<"edit", s, "", "", "">>, TRUE, db>>)
        /\ UNCHANGED <<db, done>>
Drop == /\ ~done /\ Sampled /\ Len(log) <= MaxSteps /\ Len(log) > 1
        /\ \E b \in {"none", "other"} : b # db /\ db' = b /\ log' = Append(log, <<<<"put", b, "", "", "">>, TRUE, b>>)
        /\ UNCHANGED <<scene, done>>
Report == ~done /\ Len(log) = MaxSteps + 1 /\ done' = TRUE /\ PrintT(<<"V", log>>) /\ UNCHANGED <<scene, db, log>>
Next == Do \/ Edit \/ Drop \/ Report
\* what was there is lost only to a simulation, and then with consent
Kept == \A k \in 2..Len(log) : LET before == log[k - 1][IF k = 2 THEN 2 ELSE 3] c == log[k][1] IN
          (log[k][3] # before /\ before # "none") => (c[1] = "put" \/ (c[1] = "simulate" /\ Consent(c[2], c[3])))
\* a failed command has changed nothing
NoTrace == \A k \in 2..Len(log) : ~log[k][2] => log[k][3] = log[k - 1][IF k = 2 THEN 2 ELSE 3]
Inv == Kept /\ NoTrace
================================================================================
