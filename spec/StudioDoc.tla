------------------------------ MODULE StudioDoc ------------------------------
(* The studio's document as data: nodes, components and recorders as sets of  *)
(* records, the edits the studio offers on it, and when a document is a scene. *)
(* Values are canonical strings, locations are micro-units.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
ToDoc(j) == [nodes |-> ToSet(j.nodes), comps |-> ToSet(j.comps), recs |-> ToSet(j.recs), rest |-> j.rest]
Names(set) == {x.name : x \in set}
Get(set, n) == CHOOSE x \in set : x.name = n
Put(set, x) == {y \in set : y.name # x.name} \cup {x}
Drop(set, ns) == {y \in set : y.name \notin ns}
NodesOf(d) == Names(d.nodes)
Node(d, n) == Get(d.nodes, n)
Geometry == {"box", "sphere", "cylinder"}
\* ---- the tree
ParentOf(d, n) == IF n = "world" THEN "" ELSE IF Node(d, n).parent = "" THEN "world" ELSE Node(d, n).parent
RECURSIVE Above(_, _, _)
Above(d, n, left) == IF n \notin NodesOf(d) \/ left = 0 THEN {"~"} ELSE IF n = "world" THEN {n} ELSE {n} \cup Above(d, ParentOf(d, n), left - 1)
Rooted(d, n) == "~" \notin Above(d, n, Cardinality(d.nodes))
\* ---- recorders made by record: true
Faces == {"top", "bottom", "east", "west", "north", "south"}
AutoNames(d, n) == LET x == Node(d, n) IN IF x.record # "true" THEN {} ELSE {n \o "-lost"} \cup (IF x.kind = "box" THEN {n \o "-" \o f : f \in Faces} ELSE {n \o "-escaping"})
Recorders(d) == {[name |-> r.name, node |-> r.node, event |-> r.event, auto |-> FALSE] : r \in d.recs}
                \cup UNION {{[name |-> a, node |-> n, event |-> IF a = n \o "-lost" THEN "lost" ELSE "escaping", auto |-> TRUE] : a \in AutoNames(d, n) \ Names(d.recs)} : n \in NodesOf(d)}
FaceOf(f) == CASE f = "top" -> "[0.0, 0.0, 1.0]" [] f = "bottom" -> "[0.0, 0.0, -1.0]" [] f = "east" -> "[1.0, 0.0, 0.0]" [] f = "west" -> "[-1.0, 0.0, 0.0]" [] f = "north" -> "[0.0, 1.0, 0.0]" [] f = "south" -> "[0.0, -1.0, 0.0]"
AutoFacet(d, n, a) == IF \E f \in Faces : a = n \o "-" \o f THEN FaceOf(CHOOSE f \in Faces : a = n \o "-" \o f) ELSE ""
Surface == {"entering", "escaping", "reflected"}
\* ---- is it a scene?
Valid(d) == /\ "world" \in NodesOf(d) /\ Node(d, "world").kind \in Geometry
            /\ \A n \in NodesOf(d) : Rooted(d, n)
            /\ \A x \in d.nodes : x.whole /\ (x.kind \in Geometry => \A k \in DOMAIN x.comps : x.comps[k] \in Names(d.comps))
            /\ \A r \in d.recs : r.node \in NodesOf(d) /\ (r.facet # "" => r.event \in Surface)
\* ---- where nodes are, when nothing on the way is turned
Zero == <<0, 0, 0>>
Loc(x) == IF x.loc = <<>> THEN Zero ELSE x.loc
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
RECURSIVE Pos(_, _)
Pos(d, n) == IF n = "world" THEN Zero ELSE Plus(Loc(Node(d, n)), Pos(d, ParentOf(d, n)))
Straight(d, n) == n = "world" \/ \A m \in Above(d, ParentOf(d, n), Cardinality(d.nodes)) : m = "~" \/ Node(d, m).dir = ""
\* ---- edits: [ok, doc]; where the studio must choose a value, `open` names the node whose location is free
No == [ok |-> FALSE]
Yes(d) == [ok |-> TRUE, doc |-> d]
Fresh(stem, ns) == LET k == CHOOSE k \in 1..50 : (stem \o "-" \o ToString(k)) \notin ns /\ \A j \in 1..(k - 1) : (stem \o "-" \o ToString(j)) \in ns IN stem \o "-" \o ToString(k)
Blank == [name |-> "", kind |-> "", parent |-> "", loc |-> Zero, dir |-> "", size |-> "", radius |-> "", length |-> "", index |-> "", comps |-> <<>>, record |-> "", wl |-> "", cone |-> "", whole |-> TRUE, rest |-> "{}"]
Snippet(kind) == CASE kind = "box" -> [Blank EXCEPT !.kind = "box", !.size = "[1.0, 1.0, 1.0]", !.index = "1.5"]
                   [] kind = "sphere" -> [Blank EXCEPT !.kind = "sphere", !.radius = "0.5", !.index = "1.5"]
                   [] kind = "cylinder" -> [Blank EXCEPT !.kind = "cylinder", !.length = "1.0", !.radius = "0.5", !.index = "1.5"]
                   [] kind = "light" -> [Blank EXCEPT !.kind = "light", !.loc = <<0, 0, 2000000>>, !.dir = "[0.0, 0.0, -1.0]", !.wl = "555.0", !.cone = "20.0"]
\* a field of a node: which kinds have it
Has(kind, f) == CASE f \in {"parent", "loc", "dir", "record"} -> TRUE
                  [] f = "size" -> kind = "box" [] f = "radius" -> kind \in {"sphere", "cylinder"} [] f = "length" -> kind = "cylinder"
                  [] f \in {"index", "comps"} -> kind \in Geometry [] f \in {"wl", "cone"} -> kind = "light" [] OTHER -> FALSE
SetField(x, f, v) == CASE f = "parent" -> [x EXCEPT !.parent = v] [] f = "loc" -> [x EXCEPT !.loc = v] [] f = "dir" -> [x EXCEPT !.dir = v] [] f = "record" -> [x EXCEPT !.record = v]
                       [] f = "size" -> [x EXCEPT !.size = v] [] f = "radius" -> [x EXCEPT !.radius = v] [] f = "length" -> [x EXCEPT !.length = v]
                       [] f = "index" -> [x EXCEPT !.index = v] [] f = "comps" -> [x EXCEPT !.comps = v] [] f = "wl" -> [x EXCEPT !.wl = v] [] f = "cone" -> [x EXCEPT !.cone = v]
\* op: [op, a, b, f, v, bad]; v is the value (string, location or list of names), bad says no scene can have it
Edit(d, o) ==
  CASE o.op = "set" /\ o.f = "wl" /\ o.a \notin NodesOf(d) ->      \* a light made of nothing but its wavelength
         Yes([d EXCEPT !.nodes = @ \cup {[Blank EXCEPT !.name = o.a, !.kind = "light", !.loc = <<>>, !.wl = o.v]}])
    [] o.op = "set" -> IF o.bad \/ o.a \notin NodesOf(d) \/ ~Has(Node(d, o.a).kind, o.f) THEN No ELSE Yes([d EXCEPT !.nodes = Put(@, SetField(Node(d, o.a), o.f, o.v))])
    [] o.op = "set-node" -> IF o.bad THEN No ELSE Yes([d EXCEPT !.nodes = Put(@, [Snippet("box") EXCEPT !.name = o.a, !.loc = <<>>, !.size = "[2.0, 1.0, 0.5]", !.index = "1.3"])])
    [] o.op = "set-comp" -> IF o.bad THEN No
                            ELSE IF o.a \in Names(d.comps) THEN (IF Get(d.comps, o.a).kind # o.f THEN No ELSE Yes([d EXCEPT !.comps = Put(@, [Get(d.comps, o.a) EXCEPT !.coef = o.v])]))
                            ELSE Yes([d EXCEPT !.comps = @ \cup {[name |-> o.a, kind |-> o.f, coef |-> o.v, rest |-> "{}"]}])
    [] o.op = "move" -> IF o.a \notin NodesOf(d) \/ o.a = "world" \/ ~Rooted(d, o.a) THEN No
                        ELSE LET x == Node(d, o.a) IN Yes([d EXCEPT !.nodes = Put(@, [x EXCEPT !.loc = IF Straight(d, o.a) THEN Minus(o.v, Pos(d, ParentOf(d, o.a))) ELSE <<"free">>])])
    [] o.op = "add-node" -> IF o.bad THEN No ELSE LET n == Fresh(o.f, NodesOf(d)) IN Yes([d EXCEPT !.nodes = @ \cup {[Snippet(o.f) EXCEPT !.name = n]}])
    [] o.op = "add-recorder" -> IF o.a \notin NodesOf(d) THEN No
                                ELSE Yes([d EXCEPT !.recs = @ \cup {[name |-> Fresh(o.a \o "-escaping", Names(d.recs)), node |-> o.a, event |-> "escaping", facet |-> "", atol |-> "", rest |-> "{\"wavelength\": [400.0, 900.0, 80.0]}"]}])
    [] o.op = "add-face-recorders" -> IF o.a \notin NodesOf(d) THEN No ELSE IF Node(d, o.a).kind # "box" THEN No
                                      ELSE Yes([d EXCEPT !.recs = @ \cup {[name |-> o.a \o "-" \o f, node |-> o.a, event |-> "escaping", facet |-> FaceOf(f), atol |-> "", rest |-> "free"] : f \in {f \in Faces : (o.a \o "-" \o f) \notin Names(d.recs)}}])
    [] o.op = "add-component" -> Yes([d EXCEPT !.comps = @ \cup {[name |-> Fresh("absorber", Names(d.comps)), kind |-> "absorber", coef |-> "1.0", rest |-> "{}"]}])
    [] o.op = "delete-component" -> IF o.a \notin Names(d.comps) THEN No
                                    ELSE Yes([d EXCEPT !.comps = Drop(@, {o.a}), !.nodes = {[x EXCEPT !.comps = SelectSeq(@, LAMBDA c : c # o.a)] : x \in @}])
    [] o.op = "update-recorder" -> IF o.bad THEN No
                                   ELSE IF o.a \in Names(d.recs) THEN LET r == Get(d.recs, o.a) IN Yes([d EXCEPT !.recs = Put(@, CASE o.f = "event" -> [r EXCEPT !.event = o.v] [] o.f = "facet" -> [r EXCEPT !.facet = o.v] [] o.f = "atol" -> [r EXCEPT !.atol = o.v])])
                                   ELSE IF o.a \in {r.name : r \in Recorders(d)} THEN LET r == CHOOSE r \in Recorders(d) : r.name = o.a
                                        m == [name |-> o.a, node |-> r.node, event |-> r.event, facet |-> AutoFacet(d, r.node, o.a), atol |-> "", rest |-> "free"]
                                        IN Yes([d EXCEPT !.recs = @ \cup {CASE o.f = "event" -> [m EXCEPT !.event = o.v] [] o.f = "facet" -> [m EXCEPT !.facet = o.v] [] o.f = "atol" -> [m EXCEPT !.atol = o.v]}])
                                   ELSE No
    [] o.op = "delete-recorder" -> IF o.a \notin Names(d.recs) THEN No ELSE Yes([d EXCEPT !.recs = Drop(@, {o.a})])
    [] o.op = "delete-node" -> IF o.a \notin NodesOf(d) \/ o.a = "world" THEN No
                               ELSE Yes([d EXCEPT !.nodes = Drop(@, {o.a}), !.recs = {r \in @ : r.node # o.a}])
    [] OTHER -> No
\* what the studio does with it: applied if the result is a scene, otherwise refused
Expected(d, o) == LET e == Edit(d, o) IN IF ~e.ok THEN No ELSE IF Valid(e.doc) THEN e ELSE No
==============================================================================
