--------------------------------- MODULE Line ---------------------------------
(* A ray in a world of nested and touching slabs, moving along one line: a     *)
(* complete reference model of the tracer in which every volume it is in, every*)
(* boundary it meets and both sides of each boundary follow from integers.     *)
(* TLC enumerates every behaviour of the ray up to MaxEv events; each one is    *)
(* printed and replayed into the real tracer.                                  *)
(* A world: vol[v] = [lo, hi, encl (innermost first), comp, n]; coordinates are *)
(* doubled so that rays start and are absorbed at odd ones.  comp is "" or the  *)
(* kind of the one component in the volume.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxEv, MaxSteps, MaxPath
WORLDS == ndJsonDeserialize(IOEnv.WORLDS)
VARIABLES w, x, d, here, src, path, steps, log, fin
vars == <<w, x, d, here, src, path, steps, log, fin>>
V == WORLDS[w].vol
N == DOMAIN V
Root == 1
(* innermost volume at odd coordinate y                                        *)
Within(y) == { v \in N : V[v].lo < y /\ y < V[v].hi }
Innermost(y) == CHOOSE v \in Within(y) : Len(V[v].encl) = CHOOSE k \in 0..Cardinality(N) :
                   /\ \E u \in Within(y) : Len(V[u].encl) = k
                   /\ \A u \in Within(y) : Len(V[u].encl) <= k
Bounds == { V[v].lo : v \in N } \cup { V[v].hi : v \in N }
Ahead == { b \in Bounds : (b - x) * d > 0 }
NextB == CHOOSE b \in Ahead : \A c \in Ahead : (b - x) * d <= (c - x) * d
Dist == (NextB - x) * d
Adj == Innermost(NextB + d)
AtRoot == NextB = V[Root].lo \/ NextB = V[Root].hi
Over == steps >= MaxSteps \/ path > MaxPath
Ev(k, con, adj, y, dd, s, p) == <<k, con, adj, y, dd, s, p>>
Put(e) == log' = Append(log, e)

Init == /\ w \in 1..Len(WORLDS)
        /\ x \in { y \in V[Root].lo..V[Root].hi : y % 2 = 1 /\ y % WORLDS[w].every = 1 }
        /\ d \in {-1, 1} /\ here = Innermost(x)
        /\ src = 0 /\ path = 0 /\ steps = 0 /\ fin = FALSE
        /\ log = <<Ev("GENERATE", 0, 0, x, d, 0, 0)>>
Going == ~fin /\ Len(log) < MaxEv
Kill == /\ Going /\ Over
        /\ Put(Ev("KILL", here, 0, x, d, src, path)) /\ fin' = TRUE
        /\ UNCHANGED <<w, x, d, here, src, path, steps>>
Exit == /\ Going /\ ~Over /\ AtRoot
        /\ Put(Ev("EXIT", here, 0, NextB, d, src, path + Dist))
        /\ fin' = TRUE /\ x' = NextB /\ path' = path + Dist
        /\ UNCHANGED <<w, d, here, src, steps>>
Transmit == /\ Going /\ ~Over /\ ~AtRoot
            /\ Put(Ev("TRANSMIT", here, Adj, NextB, d, src, path + Dist))
            /\ x' = NextB /\ here' = Adj /\ path' = path + Dist /\ steps' = steps + 1
            /\ UNCHANGED <<w, d, src, fin>>
Reflect == /\ Going /\ ~Over /\ ~AtRoot /\ V[here].n # V[Adj].n
           /\ Put(Ev("REFLECT", here, Adj, NextB, -d, src, path + Dist))
           /\ x' = NextB /\ d' = -d /\ path' = path + Dist /\ steps' = steps + 1
           /\ UNCHANGED <<w, here, src, fin>>
(* absorbed somewhere before the boundary, here one unit after the last event   *)
Absorb == /\ Going /\ ~Over /\ V[here].comp # "" /\ Dist > 1
          /\ LET a == Ev("ABSORB", here, 0, x + d, d, src, path + 1)
                 k == V[here].comp IN
             /\ x' = x + d /\ path' = path + 1 /\ UNCHANGED <<w, here>>
             /\ IF k \in {"luminophore", "scatterer"}
                THEN \E dd \in {-1, 1} :
                       /\ d' = dd /\ src' = here /\ steps' = steps + 1 /\ fin' = FALSE
                       /\ log' = log \o <<a, Ev(IF k = "scatterer" THEN "SCATTER" ELSE "EMIT", here, 0, x + d, dd, here, path + 1)>>
                ELSE /\ fin' = TRUE /\ UNCHANGED <<d, src, steps>>
                     /\ log' = log \o <<a, Ev(IF k = "reactor" THEN "REACT" ELSE "NONRADIATIVE", here, 0, x + d, d, src, path + 1)>>
Report == /\ (fin \/ Len(log) >= MaxEv) /\ x # -1000
          /\ PrintT(<<"V", w, fin, log>>)
          /\ x' = -1000 /\ fin' = TRUE /\ UNCHANGED <<w, d, here, src, path, steps, log>>
Next == Kill \/ Exit \/ Transmit \/ Reflect \/ Absorb \/ Report

(* ------------------------- properties of the model ------------------------- *)
(* C02: the volume attributed to every event is the innermost one on the side   *)
(* the ray comes from, and the next one follows from it                         *)
Side(k) == log[k][4] - log[k][5]        \* only used for crossings
Attribution ==
  \A k \in 2..Len(log) :
    LET e == log[k]  p == log[k - 1]  mid == p[4] + p[5] IN
    (e[4] # p[4]) =>
      \A y \in { z \in V[Root].lo..V[Root].hi : z % 2 = 1 /\ (z - p[4]) * (z - e[4]) < 0 } : Innermost(y) = e[2]
Sides ==
  \A k \in 2..Len(log) : log[k][1] \in {"TRANSMIT", "REFLECT"} =>
     /\ log[k][3] # log[k][2]
     /\ LET far == IF log[k][1] = "TRANSMIT" THEN log[k][5] ELSE -log[k][5] IN Innermost(log[k][4] + far) = log[k][3]
Ended == fin => log[Len(log)][1] \in {"EXIT", "KILL", "NONRADIATIVE", "REACT"} \/ Len(log) >= MaxEv
=============================================================================
