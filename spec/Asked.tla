--------------------------------- MODULE Asked ---------------------------------
(* A custom surface on each of two concentric shells inside a world.  A ray runs *)
(* along a diameter: at every shell its surface is asked once for its            *)
(* reflectivity (percent) and then once for the direction of what was decided by *)
(* the draw.  Behaviours are printed and carried out on the real tracer.         *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxSteps
VARIABLES gap, head, asks, start, done
vars == <<gap, head, asks, start, done>>
Vol(g) == <<0, 1, 2, 1, 0>>[g + 1]
Max(a, b) == IF a >= b THEN a ELSE b
Init == /\ gap \in 0..4 /\ head \in {-1, 1} /\ asks = <<>> /\ start = <<gap, head>> /\ done = "no"
Leaves == (head = 1 /\ gap = 4) \/ (head = -1 /\ gap = 0)
Decide(r, low) == r = 100 \/ (r = 50 /\ low)
Ask == /\ done = "no" /\ ~Leaves /\ Len(asks) < MaxSteps
       /\ \E r \in {0, 50, 100}, low \in BOOLEAN :
            LET to == gap + head con == Vol(gap) adj == Vol(to) refl == Decide(r, low)
            IN /\ asks' = Append(asks, <<Max(con, adj), con, adj, head, r, low, refl>>)
               /\ gap' = (IF refl THEN gap ELSE to)
               /\ head' = (IF refl THEN -head ELSE head)
       /\ UNCHANGED <<start, done>>
Exit == done = "no" /\ Leaves /\ Len(asks) < MaxSteps /\ done' = "exit" /\ UNCHANGED <<gap, head, asks, start>>
Kill == done = "no" /\ Len(asks) = MaxSteps /\ done' = "kill" /\ UNCHANGED <<gap, head, asks, start>>
Report == done \in {"exit", "kill"} /\ PrintT(<<"V", start, done, asks>>) /\ done' = "told" /\ UNCHANGED <<gap, head, asks, start>>
Next == Ask \/ Exit \/ Kill \/ Report
\* the surface asked is that of the inner of the two volumes the ray is between
Right == \A k \in DOMAIN asks : asks[k][1] \in {asks[k][2], asks[k][3]} /\ asks[k][2] # asks[k][3]
\* certain surfaces leave no choice
Certain == \A k \in DOMAIN asks : (asks[k][5] = 0 => ~asks[k][7]) /\ (asks[k][5] = 100 => asks[k][7])
\* the volume in which the next question is asked follows from the last decision
Chain == \A k \in 1..(Len(asks) - 1) : asks[k + 1][2] = (IF asks[k][7] THEN asks[k][2] ELSE asks[k][3])
         /\ asks[k + 1][4] = (IF asks[k][7] THEN -asks[k][4] ELSE asks[k][4])
Inv == Right /\ Certain /\ Chain
===============================================================================
