-------------------------------- MODULE MCSolid -------------------------------
(* Checks Solid itself: a convex solid is crossed once from inside, twice or    *)
(* never from outside; the two directions together see the whole line; moving   *)
(* the origin along the line past a crossing loses exactly that crossing.       *)
EXTENDS Solid
CONSTANTS G, Dirs
Shapes == {[kind |-> "box", h |-> <<1, 2, 3>>], [kind |-> "box", h |-> <<2, 2, 2>>], [kind |-> "sphere", h |-> <<3>>], [kind |-> "sphere", h |-> <<2>>],
           [kind |-> "cylinder", h |-> <<2, 1>>], [kind |-> "cylinder", h |-> <<1, 3>>]}
VARIABLES s, o, d
Init == s \in Shapes /\ o \in (-G..G) \X (-G..G) \X (-G..G) /\ d \in {v \in (-Dirs..Dirs) \X (-Dirs..Dirs) \X (-Dirs..Dirs) : v # <<0, 0, 0>>}
Step == /\ o' = <<o[1] + d[1], o[2] + d[2], o[3] + d[3]>> /\ AbsI(o'[1]) <= G /\ AbsI(o'[2]) <= G /\ AbsI(o'[3]) <= G /\ UNCHANGED <<s, d>>
Next == Step
Back == <<-d[1], -d[2], -d[3]>>
Clean == ~Cross(s, o, d).edge /\ ~Cross(s, o, Back).edge
Parity == Clean => CASE Side(s, o) = -1 -> Cross(s, o, d).n = 1 /\ Cross(s, o, Back).n = 1
                     [] Side(s, o) = 0 -> Cross(s, o, d).n + Cross(s, o, Back).n \in {0, 1}
                     [] OTHER -> Cross(s, o, d).n \in {0, 2} /\ Cross(s, o, Back).n \in {0, 2} /\ (Cross(s, o, d).n = 2 => Cross(s, o, Back).n = 0)
Whole(x) == Cross(s, x, d).n + Cross(s, x, Back).n + (IF Side(s, x) = 0 THEN 1 ELSE 0)
Line == [][(Clean /\ ~Cross(s, o', d).edge /\ ~Cross(s, o', Back).edge) => (Whole(o') = Whole(o) /\ Cross(s, o', d).n <= Cross(s, o, d).n)]_<<s, o, d>>
===============================================================================
