------------------------------ MODULE StudioRun ------------------------------
(* One websocket connection of the studio: the client's commands, the receive *)
(* loop, the run tasks it creates, the stop flag each task looks at, and the   *)
(* bundles traced in an executor thread.  A task captures the scene when it is *)
(* created, waits for the task before it, announces itself, and then traces a  *)
(* bundle at a time.  Checked exhaustively; the schedules (commands and bundle *)
(* completions, in order) are printed and replayed through the real server.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxRuns, MaxStops, MaxEdits, Sizes, Emit
VARIABLES runs,    \* created tasks: [doc, want, state, stop, got, pend]
          doc, msgs, sched, stops, edits, closed
vars == <<runs, doc, msgs, sched, stops, edits, closed>>
Ids == DOMAIN runs
Latest == Len(runs)
Say(m) == msgs' = Append(msgs, m)
Log(a) == sched' = IF Emit THEN Append(sched, a) ELSE sched
Init == runs = <<>> /\ doc = 1 /\ msgs = <<>> /\ sched = <<>> /\ stops = 0 /\ edits = 0 /\ closed = FALSE
Alive(r) == r.state \in {"wait", "live"}
\* the receive loop takes a run command: the task before is told to stop
Run(n) == /\ ~closed /\ Latest < MaxRuns
          /\ runs' = Append([i \in Ids |-> [runs[i] EXCEPT !.stop = TRUE]], [doc |-> doc, want |-> n, state |-> "wait", stop |-> FALSE, got |-> 0])
          /\ Log(<<"run", n>>) /\ UNCHANGED <<doc, msgs, stops, edits, closed>>
Stop == /\ ~closed /\ stops < MaxStops /\ stops' = stops + 1
        /\ runs' = [i \in Ids |-> IF i = Latest THEN [runs[i] EXCEPT !.stop = TRUE] ELSE runs[i]]
        /\ Log(<<"stop", 0>>) /\ UNCHANGED <<doc, msgs, edits, closed>>
Edit == /\ edits < MaxEdits /\ edits' = edits + 1 /\ doc' = 3 - doc
        /\ Log(<<"edit", 3 - doc>>) /\ UNCHANGED <<runs, msgs, stops, closed>>
Begin(i) == /\ i \in Ids /\ ~closed /\ runs[i].state = "wait" /\ (IF i = 1 THEN TRUE ELSE runs[i - 1].state = "over")
            /\ runs' = [runs EXCEPT ![i].state = "live"] /\ Say(<<"started", i, runs[i].doc>>)
            /\ UNCHANGED <<doc, sched, stops, edits, closed>>
\* a bundle comes back from the executor: sent, or dropped when told to stop
Step(i) == /\ i \in Ids /\ ~closed /\ runs[i].state = "live" /\ runs[i].got < runs[i].want
           /\ IF runs[i].stop THEN /\ runs' = [runs EXCEPT ![i].state = "over"] /\ Say(<<"done", i, runs[i].got>>)
              ELSE /\ runs' = [runs EXCEPT ![i].got = @ + 1] /\ Say(<<"bundle", i, runs[i].got + 1>>)
           /\ Log(<<"step", i>>) /\ UNCHANGED <<doc, stops, edits, closed>>
Finish(i) == /\ i \in Ids /\ ~closed /\ runs[i].state = "live" /\ runs[i].got = runs[i].want
             /\ runs' = [runs EXCEPT ![i].state = "over"] /\ Say(<<"done", i, runs[i].got>>)
             /\ UNCHANGED <<doc, sched, stops, edits, closed>>
Close == /\ ~closed /\ closed' = TRUE /\ runs' = [i \in Ids |-> [runs[i] EXCEPT !.state = "over", !.stop = TRUE]]
         /\ Log(<<"close", 0>>) /\ UNCHANGED <<doc, msgs, stops, edits>>
Settled == Latest > 0 /\ \A i \in Ids : ~Alive(runs[i])
Next == \/ \E n \in Sizes : Run(n)
        \/ Stop \/ Edit \/ Close
        \/ \E i \in 1..MaxRuns : Begin(i)
        \/ \E i \in 1..MaxRuns : Step(i)
        \/ \E i \in 1..MaxRuns : Finish(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E i \in 1..MaxRuns : Begin(i) \/ Step(i) \/ Finish(i))
Bound == Emit => (Settled => PrintT(<<"V", sched>>))
\* ---- what the client may rely on
OneLive == Cardinality({i \in Ids : runs[i].state = "live"}) <= 1
Of(k) == msgs[k][2]
Kind(k) == msgs[k][1]
InOrder == \A j, k \in DOMAIN msgs : j < k => Of(j) <= Of(k)
OneAtATime == \A k \in DOMAIN msgs : Kind(k) = "started" => \A j \in 1..(k - 1) : Of(j) < Of(k) /\ \E e \in 1..(k - 1) : Kind(e) = "done" /\ Of(e) = Of(j)
Sums == \A k \in DOMAIN msgs : Kind(k) = "bundle" => msgs[k][3] = 1 + Cardinality({j \in 1..(k - 1) : Kind(j) = "bundle" /\ Of(j) = Of(k)})
Bounded == \A i \in Ids : runs[i].got <= runs[i].want
OwnScene == \A k \in DOMAIN msgs : Kind(k) = "started" => msgs[k][3] = runs[Of(k)].doc
Complete == \A k \in DOMAIN msgs : (Kind(k) = "done" /\ ~runs[Of(k)].stop) => msgs[k][3] = runs[Of(k)].want
Inv == OneLive /\ InOrder /\ OneAtATime /\ Sums /\ Bounded /\ OwnScene /\ Complete
Begun(i) == i <= Len(runs)
Over(i) == i <= Len(runs) /\ runs[i].state = "over"
Ends == \A i \in 1..MaxRuns : Begun(i) ~> Over(i)
==============================================================================
