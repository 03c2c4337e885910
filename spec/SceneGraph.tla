------------------------------ MODULE SceneGraph ------------------------------
(* Poses of nodes in a tree and the operations that change them, over the 24   *)
(* rotations of the cube and whole-number locations, so everything is exact.   *)
(* TLC checks the algebra of conversions in every reachable state and prints    *)
(* behaviours (operations with the poses after each and conversions at the end)*)
(* which are replayed into the real nodes.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Depth, Rich
N == 1..3
Vec == -1..1
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Times(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Axes == {<<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>>, <<0, 0, 1>>, <<0, 0, -1>>}
\* a rotation is its three columns: where x, y and z go
Rots == {r \in [1..3 -> Axes] : Dot3(r[1], r[2]) = 0 /\ r[3] = Cross3(r[1], r[2])}
Id == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Apply(r, v) == Plus(Plus(Times(v[1], r[1]), Times(v[2], r[2])), Times(v[3], r[3]))
Undo(r, v) == <<Dot3(r[1], v), Dot3(r[2], v), Dot3(r[3], v)>>
\* quarter turns about an axis a (right-handed)
Quarter(a, v) == Plus(Cross3(a, v), Times(Dot3(a, v), a))
RECURSIVE Turn(_, _, _)
Turn(a, k, v) == IF k = 0 THEN v ELSE Turn(a, k - 1, Quarter(a, v))
TurnAll(a, k, r) == <<Turn(a, k, r[1]), Turn(a, k, r[2]), Turn(a, k, r[3])>>

VARIABLES par, pose, log, phase
vars == <<par, pose, log, phase>>
Up(p, q) == Plus(Apply(q.r, p), q.t)
Down(p, q) == Undo(q.r, Minus(p, q.t))
RECURSIVE ToRoot(_, _)      \* to the frame in which node 1 is placed
ToRoot(n, p) == IF n = 0 THEN p ELSE ToRoot(par[n], Up(p, pose[n]))
RECURSIVE FromRoot(_, _)
FromRoot(n, p) == IF n = 0 THEN p ELSE Down(FromRoot(par[n], p), pose[n])
Convert(a, b, p) == FromRoot(b, ToRoot(a, p))
ConvertV(a, b, v) == Minus(Convert(a, b, v), Convert(a, b, <<0, 0, 0>>))

Do(n, name, arg, new) == /\ Len(log) < Depth
                         /\ pose' = [pose EXCEPT ![n] = new]
                         /\ log' = Append(log, <<n, name, arg, new.r, new.t>>)
                         /\ UNCHANGED <<par, phase>>
Moves == IF Rich THEN {<<1, 0, 0>>, <<0, -2, 1>>, <<3, 1, -1>>} ELSE {<<1, -2, 0>>}
Turns == IF Rich THEN Axes ELSE {<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 1>>}
Translate(n, v) == Do(n, "translate", v, [r |-> pose[n].r, t |-> Plus(pose[n].t, v)])
Rotate(n, a, k, l) == Do(n, "rotate", <<a[1] * l, a[2] * l, a[3] * l, k>>, [r |-> TurnAll(a, k, pose[n].r), t |-> pose[n].t])
\* the face (+z) is turned to the direction; the roll about it is left open
LookAt(n, a, l) == \E r \in Rots : r[3] = a /\ Do(n, "look", Times(l, a), [r |-> r, t |-> pose[n].t])
Locate(n, v) == Do(n, "locate", v, [r |-> pose[n].r, t |-> v])
SetPose(n, r, v) == Do(n, "pose", <<>>, [r |-> r, t |-> v])
Reparent(p) == /\ Len(log) < Depth /\ par[3] # p
               /\ par' = [par EXCEPT ![3] = p] /\ log' = Append(log, <<3, "parent", p, pose[3].r, pose[3].t>>) /\ UNCHANGED <<pose, phase>>
Probes == <<<<0, 0, 0>>, <<1, 2, 3>>>>
Report == /\ Len(log) = Depth /\ phase = "run" /\ phase' = "done" /\ UNCHANGED <<par, pose, log>>
          /\ PrintT(<<"V", log, [k \in 1..9 |-> LET a == ((k - 1) \div 3) + 1 b == ((k - 1) % 3) + 1 IN <<a, b, Convert(a, b, Probes[2]), ConvertV(a, b, Probes[2])>>]>>)
Init == /\ par = <<0, 1, 2>> /\ phase = "run" /\ log = <<>>
        /\ pose = [n \in N |-> [r |-> Id, t |-> IF n = 1 THEN <<0, 0, 0>> ELSE <<n, 0, -1>>]]
Next == \/ \E n \in N : \/ \E v \in Moves : Translate(n, v)
                        \/ \E a \in Turns, k \in {1, 3} : Rotate(n, a, k, 1)
                        \/ Rich /\ \E a \in Turns : Rotate(n, a, 2, 5)
                        \/ \E a \in Axes : LookAt(n, a, 1) \/ (Rich /\ LookAt(n, a, 4))
                        \/ Locate(n, <<-1, 0, 2>>)
                        \/ SetPose(n, <<<<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>>>>, <<0, 3, 0>>)
        \/ \E p \in 1..2 : Reparent(p)
        \/ Report
\* ---- what the conversions must satisfy
Rigid == \A n \in N : pose[n].r \in Rots
ThereAndBack == \A a, b \in N : \A p \in {Probes[1], Probes[2]} : Convert(b, a, Convert(a, b, p)) = p
AnyRoute == \A a, b, c \in N : Convert(b, c, Convert(a, b, Probes[2])) = Convert(a, c, Probes[2])
LengthsKept == \A a, b \in N : LET v == ConvertV(a, b, Probes[2]) IN Dot3(v, v) = 14
Inv == Rigid /\ ThereAndBack /\ AnyRoute /\ LengthsKept
===============================================================================
