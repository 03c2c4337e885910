------------------------------- MODULE SimGen -------------------------------
(* Every way the tasks of a run can be shared by worker processes and their   *)
(* events can interleave on the queue.  Throw k of task t is ray First[t]+k   *)
(* of the simulation; its light, and so its number of events, follows.        *)
EXTENDS Integers, Sequences, TLC
CONSTANTS NProc, Shape
Sizes == CASE Shape = 1 -> <<2, 1>> [] Shape = 2 -> <<1, 1, 1>> [] Shape = 3 -> <<2, 1, 1>> [] Shape = 4 -> <<3>> [] OTHER -> <<1, 1>>
Events == <<2, 4>>                 \* histories of the two lights' rays
RECURSIVE First(_)
First(t) == IF t = 1 THEN 0 ELSE First(t - 1) + Sizes[t - 1]
Ray(a) == First(a.task) + a.idx
EvOf(a) == Events[(Ray(a) % Len(Events)) + 1]
VARIABLES next, proc, log, owner
Idle == [task |-> 0, idx |-> 0, ev |-> 0]
Init == next = 1 /\ proc = [p \in 1..NProc |-> Idle] /\ log = <<>> /\ owner = <<>>
(* a pool hands its tasks out in order, to any process that is free *)
Take(p) == /\ proc[p] = Idle /\ next <= Len(Sizes)
           /\ proc' = [proc EXCEPT ![p] = [task |-> next, idx |-> 0, ev |-> 1]]
           /\ owner' = Append(owner, p) /\ next' = next + 1 /\ UNCHANGED log
Put(p) == /\ proc[p] # Idle
          /\ LET a == proc[p] IN
             /\ log' = Append(log, <<p, a.task, Ray(a), a.ev>>)
             /\ proc' = [proc EXCEPT ![p] = IF a.ev < EvOf(a) THEN [a EXCEPT !.ev = @ + 1]
                                            ELSE IF a.idx + 1 < Sizes[a.task] THEN [a EXCEPT !.idx = @ + 1, !.ev = 1] ELSE Idle]
          /\ UNCHANGED <<next, owner>>
End == next = Len(Sizes) + 1 /\ (\A p \in 1..NProc : proc[p] = Idle)
       /\ next' = next + 1 /\ PrintT(<<"V", Sizes, owner, log>>) /\ UNCHANGED <<proc, log, owner>>
Next == (\E p \in 1..NProc : Take(p) \/ Put(p)) \/ End
=============================================================================
