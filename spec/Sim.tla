-------------------------------- MODULE Sim --------------------------------
(* A database run: tasks shared by worker processes put (task, throw, event)  *)
(* on a bounded queue; one monitor takes them off and stores, per item, a ray *)
(* row and an event row in one transaction; the main thread waits for the     *)
(* workers, drains the queue, stops and joins the monitor.  The writer may    *)
(* die at any point.  Throws get ids on arrival.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sizes, NProc, EvPer, QMax, Crashes
Procs == 1..NProc
VARIABLES todo, proc, queue, mon, rays, events, txn, ids, stop, main, alive, arrived
vars == <<todo, proc, queue, mon, rays, events, txn, ids, stop, main, alive, arrived>>
Idle == [task |-> 0, idx |-> 0, ev |-> 0]
NoItem == [task |-> 0, idx |-> 0, ev |-> 0]
Range(s) == {s[k] : k \in DOMAIN s}
Init == /\ todo = DOMAIN Sizes /\ proc = [p \in Procs |-> Idle] /\ queue = <<>>
        /\ mon = [phase |-> "wait", item |-> NoItem]
        /\ rays = <<>> /\ events = <<>> /\ txn = [rays |-> <<>>, events |-> <<>>]
        /\ ids = <<>> /\ stop = FALSE /\ main = "run" /\ alive = TRUE /\ arrived = <<>>
Take(p) == /\ proc[p] = Idle /\ main = "run"
           /\ \E t \in todo : proc' = [proc EXCEPT ![p] = [task |-> t, idx |-> 0, ev |-> 1]] /\ todo' = todo \ {t}
           /\ UNCHANGED <<queue, mon, rays, events, txn, ids, stop, main, alive, arrived>>
Put(p) == /\ proc[p] # Idle /\ Len(queue) < QMax
          /\ LET a == proc[p] IN
             /\ queue' = Append(queue, a)
             /\ proc' = [proc EXCEPT ![p] = IF a.ev < EvPer THEN [a EXCEPT !.ev = @ + 1]
                                            ELSE IF a.idx + 1 < Sizes[a.task] THEN [a EXCEPT !.idx = @ + 1, !.ev = 1] ELSE Idle]
          /\ UNCHANGED <<todo, mon, rays, events, txn, ids, stop, main, alive, arrived>>
Get == /\ alive /\ mon.phase = "wait" /\ queue # <<>>
       /\ mon' = [phase |-> "got", item |-> Head(queue)] /\ queue' = Tail(queue)
       /\ arrived' = Append(arrived, Head(queue))
       /\ ids' = IF <<Head(queue).task, Head(queue).idx>> \in Range(ids) THEN ids ELSE Append(ids, <<Head(queue).task, Head(queue).idx>>)
       /\ UNCHANGED <<todo, proc, rays, events, txn, stop, main, alive>>
IdOf(it) == CHOOSE k \in DOMAIN ids : ids[k] = <<it.task, it.idx>>
WriteRay == /\ alive /\ mon.phase = "got"
            /\ txn' = [txn EXCEPT !.rays = Append(@, IdOf(mon.item))]
            /\ mon' = [mon EXCEPT !.phase = "ray"]
            /\ UNCHANGED <<todo, proc, queue, rays, events, ids, stop, main, alive, arrived>>
WriteEvent == /\ alive /\ mon.phase = "ray"
              /\ txn' = [txn EXCEPT !.events = Append(@, [ray |-> Len(rays) + Len(txn.rays), ev |-> mon.item.ev])]
              /\ mon' = [mon EXCEPT !.phase = "event"]
              /\ UNCHANGED <<todo, proc, queue, rays, events, ids, stop, main, alive, arrived>>
Commit == /\ alive /\ mon.phase = "event"
          /\ rays' = rays \o txn.rays /\ events' = events \o txn.events
          /\ txn' = [rays |-> <<>>, events |-> <<>>] /\ mon' = [phase |-> "wait", item |-> NoItem]
          /\ UNCHANGED <<todo, proc, queue, ids, stop, main, alive, arrived>>
Leave == /\ alive /\ mon.phase = "wait" /\ stop /\ queue = <<>> /\ mon' = [phase |-> "left", item |-> NoItem]
         /\ UNCHANGED <<todo, proc, queue, rays, events, txn, ids, stop, main, alive, arrived>>
Joined == main = "run" /\ todo = {} /\ (\A p \in Procs : proc[p] = Idle) /\ main' = "drain"
          /\ UNCHANGED <<todo, proc, queue, mon, rays, events, txn, ids, stop, alive, arrived>>
Stop == main = "drain" /\ queue = <<>> /\ stop' = TRUE /\ main' = "stopping"
        /\ UNCHANGED <<todo, proc, queue, mon, rays, events, txn, ids, alive, arrived>>
Done == main = "stopping" /\ mon.phase = "left" /\ main' = "done"
        /\ UNCHANGED <<todo, proc, queue, mon, rays, events, txn, ids, stop, alive, arrived>>
Crash == /\ Crashes /\ alive /\ mon.phase # "left" /\ alive' = FALSE /\ txn' = [rays |-> <<>>, events |-> <<>>]
         /\ UNCHANGED <<todo, proc, queue, mon, rays, events, ids, stop, main, arrived>>
Next == (\E p \in Procs : Take(p) \/ Put(p)) \/ Get \/ WriteRay \/ WriteEvent \/ Commit \/ Leave \/ Joined \/ Stop \/ Done \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Get) /\ WF_vars(WriteRay) /\ WF_vars(WriteEvent) /\ WF_vars(Commit) /\ WF_vars(Leave)
        /\ WF_vars(Joined) /\ WF_vars(Stop) /\ WF_vars(Done) /\ \A p \in Procs : WF_vars(Take(p)) /\ WF_vars(Put(p))
(* every committed event has its ray, and conversely *)
Paired == /\ Len(rays) = Len(events) /\ \A k \in DOMAIN events : events[k].ray = k
(* the rows of one id, in order, are the events 1..n of one throw *)
Prefix == \A q \in Range(rays) :
            LET rows == SelectSeq(events, LAMBDA x : rays[x.ray] = q) IN \A k \in DOMAIN rows : rows[k].ev = k
NoMerge == \A q \in Range(rays) : Len(SelectSeq(rays, LAMBDA x : x = q)) <= EvPer
InOrder == \A k \in DOMAIN events : rays[k] = (CHOOSE i \in DOMAIN ids : ids[i] = <<arrived[k].task, arrived[k].idx>>) /\ events[k].ev = arrived[k].ev
RECURSIVE SumSizes(_)
SumSizes(k) == IF k = 0 THEN 0 ELSE Sizes[k] + SumSizes(k - 1)
Complete == main = "done" => Len(events) = EvPer * SumSizes(Len(Sizes))
Ends == <>(main = "done" \/ ~alive)
Inv == Paired /\ Prefix /\ NoMerge /\ InOrder /\ Complete
=============================================================================
