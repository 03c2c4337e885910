-------------------------------- MODULE Studio -------------------------------
(* The studio: a document edited by patches, replaced, saved and reloaded.    *)
(* Every reachable document must still be a scene, refused changes change      *)
(* nothing, and each edit touches what it names only.  Behaviours are printed  *)
(* and replayed into the real server.                                         *)
EXTENDS StudioDoc, Json, IOUtils
CONSTANTS Depth, Mode
Docs == [k \in 1..Len(ndJsonDeserialize(IOEnv.DOCS)) |-> ToDoc(ndJsonDeserialize(IOEnv.DOCS)[k])]
DocsV == TLCEval(Docs)
VARIABLES doc, file, start, log, told
vars == <<doc, file, start, log, told>>
O(op, a, f, v, bad) == [op |-> op, a |-> a, f |-> f, v |-> v, bad |-> bad]
AllNodes(d) == NodesOf(d) \cup {"ghost"}
AllComps(d) == Names(d.comps) \cup {"ghost"}
AllRecs(d) == {r.name : r \in Recorders(d)} \cup {"ghost"}
Free(d) == NodesOf(d) \ {"world"}
SetOps(d) ==
   {O("set", n, "parent", v, FALSE) : n \in Free(d), v \in AllNodes(d) \cup {""}}
   \cup {O("set", n, "loc", v, FALSE) : n \in Free(d) \cup {"ghost"}, v \in {<<1000000, -500000, 250000>>, <<1, 0, -30>>}}
   \cup {O("set", n, "badloc", v, TRUE) : n \in Free(d), v \in {"[1, 2]", "\"here\"", "[1, 2, \"x\"]"}}
   \cup {O("set", n, "dir", v, FALSE) : n \in {x.name : x \in {y \in d.nodes : y.kind = "light"}}, v \in {"[0.0, 1.0, 0.0]", "[1.0, 0.0, -2.0]"}}
   \cup {O("set", n, "size", v, FALSE) : n \in AllNodes(d), v \in {"[1.0, 2.0, 0.5]", "[1e-05, 3.0, 1.0]"}}
   \cup {O("set", n, "size", v, TRUE) : n \in Free(d), v \in {"[1, 2]", "\"wide\""}}
   \cup {O("set", n, "radius", v, FALSE) : n \in AllNodes(d) \ {"world"}, v \in {"0.75"}}
   \cup {O("set", n, "radius", v, TRUE) : n \in Free(d), v \in {"-1", "\"big\""}}
   \cup {O("set", n, "length", v, FALSE) : n \in Free(d), v \in {"2.5"}}
   \cup {O("set", n, "index", v, FALSE) : n \in AllNodes(d), v \in {"1.7"}}
   \cup {O("set", n, "index", v, TRUE) : n \in NodesOf(d), v \in {"\"glass\""}}
   \cup {O("set", n, "comps", v, FALSE) : n \in AllNodes(d), v \in {<<>>} \cup {<<c>> : c \in AllComps(d)} \cup {<<c, e>> : c, e \in Names(d.comps)}}
   \cup {O("set", n, "record", v, FALSE) : n \in {x.name : x \in {y \in d.nodes : y.kind # "light"}}, v \in {"true", "false"}}
   \cup {O("set", n, "wl", v, FALSE) : n \in AllNodes(d), v \in {"610.0"}}
   \cup {O("set", n, "cone", v, FALSE) : n \in Free(d), v \in {"35.5"}}
   \cup {O("set-node", n, "", "", FALSE) : n \in {"extra", "on", "1.5"} \cup Free(d)}
   \cup {O("set-node", n, "", "", TRUE) : n \in {"bad name!"}}
   \cup {O("set-comp", n, k, v, FALSE) : n \in AllComps(d), k \in {"absorber", "scatterer"}, v \in {"0.25", "1e-05", "3000000000000.0"}}
   \cup {O("set-comp", n, "absorber", v, TRUE) : n \in AllComps(d), v \in {"-1", "\"dark\""}}
EditOps(d) ==
   {O("move", n, "", v, FALSE) : n \in AllNodes(d), v \in {<<2000000, -1000000, 500000>>, <<1, 0, 0>>}}
   \cup {O("add-node", "", k, "", FALSE) : k \in {"box", "sphere", "cylinder", "light"}} \cup {O("add-node", "", "cone", "", TRUE)}
   \cup {O("add-recorder", n, "", "", FALSE) : n \in {m \in NodesOf(d) : Node(d, m).kind # "light"} \cup {"ghost"}}
   \cup {O("add-face-recorders", n, "", "", FALSE) : n \in AllNodes(d)}
   \cup {O("add-component", "", "", "", FALSE)}
   \cup {O("delete-component", n, "", "", FALSE) : n \in AllComps(d)}
   \cup {O("update-recorder", n, f[1], f[2], FALSE) : n \in AllRecs(d), f \in {<<"event", "entering">>, <<"event", "reflected">>, <<"atol", "1e-07">>, <<"facet", "[1.0, 0.0, 0.0]">>}}
   \cup {O("update-recorder", n, f[1], f[2], TRUE) : n \in AllRecs(d), f \in {<<"event", "\"seen\"">>, <<"node", "\"world\"">>, <<"histograms", "{}">>, <<"facet", "[1, 0]">>}}
   \cup {O("delete-recorder", n, "", "", FALSE) : n \in AllRecs(d)}
   \cup {O("delete-node", n, "", "", FALSE) : n \in AllNodes(d)}
   \cup {O("nonsense", "", "", "", FALSE)}
Whole == {O("put", ToString(k), "", "", FALSE) : k \in 1..Len(DocsV)}
         \cup {O("put-bad", b, "", "", TRUE) : b \in {"syntax", "list", "schema", "component", "parent", "python", "mesh", "empty", "missing-key", "not-text"}}
         \cup {O("fault", "1", "", "", FALSE), O("save", "", "", "", FALSE), O("reload", "", "", "", FALSE)}
         \cup {O("upload", b, "", "", FALSE) : b \in {"good", "name", "content", "surrogate"}}
\* names come and go: one kind of thing is added, and what was added is deleted again, in every order
New(old, now) == now \ old
Family(o) == CASE o.op = "add-node" -> o.f [] o.op = "add-recorder" -> "rec" [] o.op = "add-face-recorders" -> "face" [] o.op = "add-component" -> "comp" [] OTHER -> ""
NameAdds(d) == {O("add-node", "", k, "", FALSE) : k \in {"box", "light"}} \cup {O("add-recorder", n, "", "", FALSE) : n \in {x.name : x \in {y \in d.nodes : y.name # "world" /\ y.kind # "light"}}}
               \cup {O("add-component", "", "", "", FALSE)} \cup {O("add-face-recorders", n, "", "", FALSE) : n \in {x.name : x \in {y \in d.nodes : y.kind = "box" /\ y.name # "world"}}}
NameOps(d, first) ==
   {o \in NameAdds(d) : Family(o) = Family(first) /\ o.a = first.a}
   \cup (CASE Family(first) \in {"box", "light"} -> {O("delete-node", n, "", "", FALSE) : n \in New(NodesOf(DocsV[start]), NodesOf(d))}
          [] Family(first) \in {"rec", "face"} -> {O("delete-recorder", n, "", "", FALSE) : n \in New(Names(DocsV[start].recs), Names(d.recs)) \ {first.a \o "-" \o f : f \in {"north", "south", "east", "west"}}}
          [] OTHER -> {O("delete-component", n, "", "", FALSE) : n \in New(Names(DocsV[start].comps), Names(d.comps))})
Do(o) == /\ Len(log) < Depth /\ log' = Append(log, o) /\ UNCHANGED <<start, told>>
         /\ CASE o.op = "put" -> doc' = DocsV[CHOOSE k \in 1..Len(DocsV) : ToString(k) = o.a] /\ UNCHANGED file
              [] o.op = "save" -> file' = doc /\ UNCHANGED doc
              [] o.op = "reload" -> doc' = file /\ UNCHANGED file
              [] o.op \in {"put-bad", "upload", "fault"} -> UNCHANGED <<doc, file>>
              [] OTHER -> LET e == Expected(doc, o) IN doc' = (IF e.ok THEN e.doc ELSE doc) /\ UNCHANGED file
Plain(d) == \A x \in d.nodes : x.loc # <<"free">>
Init == \E k \in 1..Len(DocsV) : doc = DocsV[k] /\ file = DocsV[k] /\ start = k /\ log = <<>> /\ told = FALSE
\* one kind of request first, then one of it (simulation); or any of them
Kinds == <<1, 1, 2, 2, 2, 3>>
Pick == LET k == RandomElement(1..6) IN CASE Kinds[k] = 1 -> RandomElement(SetOps(doc)) [] Kinds[k] = 2 -> RandomElement(EditOps(doc)) [] OTHER -> RandomElement(Whole)
Report == /\ ~told /\ (Len(log) = Depth \/ ~Plain(doc)) /\ told' = TRUE /\ UNCHANGED <<doc, file, start, log>>
          /\ PrintT(<<"V", start, [k \in DOMAIN log |-> <<log[k].op, log[k].a, log[k].f, log[k].v, log[k].bad>>]>>)
Next == \/ Report
        \/ ~told /\ Plain(doc) /\ Mode = "random" /\ Do(Pick)
        \/ ~told /\ Plain(doc) /\ Mode = "all" /\ ((\E o \in SetOps(doc) : Do(o)) \/ (\E o \in EditOps(doc) : Do(o)) \/ (\E o \in Whole : Do(o)))
        \/ ~told /\ Plain(doc) /\ Mode = "names" /\ (\E o \in (IF log = <<>> THEN NameAdds(doc) ELSE NameOps(doc, log[1])) : Do(o))
\* ---- what must be so of every document reached
AlwaysAScene == Valid(doc)
Unique == Cardinality(NodesOf(doc)) = Cardinality(doc.nodes) /\ Cardinality(Names(doc.recs)) = Cardinality(doc.recs) /\ Cardinality(Names(doc.comps)) = Cardinality(doc.comps)
RecordersUnique == Cardinality({r.name : r \in Recorders(doc)}) = Cardinality(Recorders(doc))
Inv == AlwaysAScene /\ Unique /\ RecordersUnique
\* the frame: an edit changes at most the entry it names (deletions also references to it)
Changed(s, t) == {x.name : x \in (s \ t) \cup (t \ s)}
Frame == [][log' # log => LET o == log'[Len(log')] IN
   /\ o.op \in {"set", "move", "set-node"} => Changed(doc.nodes, doc'.nodes) \subseteq {o.a} /\ doc'.comps = doc.comps /\ doc'.recs = doc.recs
   /\ o.op = "set-comp" => doc'.nodes = doc.nodes /\ Changed(doc.comps, doc'.comps) \subseteq {o.a} /\ doc'.recs = doc.recs
   /\ o.op = "add-node" => doc.nodes \subseteq doc'.nodes /\ Cardinality(doc'.nodes) <= 1 + Cardinality(doc.nodes) /\ doc'.comps = doc.comps /\ doc'.recs = doc.recs
   /\ o.op \in {"add-recorder", "add-face-recorders"} => doc'.nodes = doc.nodes /\ doc'.comps = doc.comps /\ doc.recs \subseteq doc'.recs
   /\ o.op = "add-component" => doc'.nodes = doc.nodes /\ doc.comps \subseteq doc'.comps /\ doc'.recs = doc.recs
   /\ o.op \in {"update-recorder", "delete-recorder"} => doc'.nodes = doc.nodes /\ doc'.comps = doc.comps /\ Changed(doc.recs, doc'.recs) \subseteq {o.a}
   /\ o.op = "delete-node" => doc'.comps = doc.comps /\ doc'.recs \subseteq doc.recs /\ Changed(doc.nodes, doc'.nodes) \subseteq {o.a}
   /\ o.op = "delete-component" => doc'.recs = doc.recs /\ Changed(doc.comps, doc'.comps) \subseteq {o.a} /\ NodesOf(doc') = NodesOf(doc)
   /\ o.op \in {"save", "put-bad", "upload", "fault", "nonsense"} => doc' = doc
   /\ o.op \notin {"put", "reload"} => doc'.rest = doc.rest]_vars
==============================================================================
