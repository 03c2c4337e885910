------------------------------ MODULE RenderTrace -----------------------------
(* Judges what a real renderer put in a viewer.  A record: max (0: no limit)   *)
(* and ops, each with what was asked, its outcome ("ok", "none", "ValueError", *)
(* "AppError", ...) and all that the viewer shows afterwards.  Lengths 1e-4.   *)
EXTENDS RenderDef, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
AbsI(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == AbsI(a - b) <= t
Rng(s) == {s[k] : k \in DOMAIN s}
Along(p, d, len) == [i \in 1..3 |-> p[i] + (d[i] * len) \div 10000]      \* d: 1e4, products are whole by choice of inputs
\* ---- what each operation draws
Evs(o) == [j \in 1..Len(o.rays) |-> o.rays[j].e]
Line(a, b, w) == [key |-> <<"line", {a, b}, 0>>, c |-> w]
Ball(p, r, w) == [key |-> <<"ball", {p}, r>>, c |-> w]
Colour(x) == Rgb(x.w \div 1000)
SegOf(o, j) == LET x == o.rays[j] ev == Evs(o) IN
               Line(x.p, IF o.op = "hist" /\ IsShort(ev, o.mode, j) THEN Along(x.p, x.d, o.len) ELSE o.rays[j + 1].p, Colour(x))
Outcome(o) == CASE o.op = "hist" -> (CASE o.mode \notin {"short", "exclude"} -> "ValueError" [] Fate(Evs(o), o.mode) = "refused" -> "AppError" [] Fate(Evs(o), o.mode) = "nothing" -> "none" [] OTHER -> "ok")
                [] o.op = "path" -> IF Len(o.rays) < 2 THEN "AppError" ELSE "ok"
                [] OTHER -> "ok"
\* the parts as a function from small names; "may" parts are drawn or not as the renderer pleases
Parts(o) == IF Outcome(o) # "ok" THEN {} ELSE
            CASE o.op = "hist" -> {<<"line", j>> : j \in Segments(Evs(o), o.mode)} \cup (IF o.baubles THEN {<<"ball", j>> : j \in Balls(Evs(o), o.mode)} ELSE {})
              [] o.op = "path" -> {<<"line", j>> : j \in 1..(Len(o.rays) - 1)}
              [] o.op \in {"ray", "seg"} -> {<<"line", 1>>}
              [] o.op = "poly" -> {<<"line", j>> : j \in 1..(Len(o.pts) - 1)}
              [] OTHER -> {}
ItemOf(o, p) == CASE o.op = "hist" /\ p[1] = "ball" -> Ball(o.rays[p[2]].p, o.rad, Colour(o.rays[p[2]]))
                  [] o.op \in {"hist", "path"} -> SegOf(o, p[2])
                  [] o.op = "ray" -> Line(o.rays[1].p, Along(o.rays[1].p, o.rays[1].d, o.len), Colour(o.rays[1]))
                  [] o.op = "seg" -> Line(o.pts[1], o.pts[2], o.colour)
                  [] o.op = "poly" -> Line(o.pts[p[2]], o.pts[p[2] + 1], o.colour)
May(o) == o.op = "hist" /\ Outcome(o) = "ok" /\ o.baubles /\ o.mode = "exclude" /\ Cut(Evs(o), o.mode) < Len(o.rays) /\ Evs(o)[Cut(Evs(o), o.mode)] = "transmit"
MayItem(o) == LET x == o.rays[Cut(Evs(o), o.mode)] IN Ball(x.p, o.rad, Colour(x))
\* ---- nodes: a placed thing's global pose
RECURSIVE Global(_, _, _)
Turn(r, v) == [i \in 1..3 |-> v[1] * r[1][i] + v[2] * r[2][i] + v[3] * r[3][i]]
Global(ns, n, v) == IF n = 0 THEN v ELSE Global(ns, ns[n].parent, [i \in 1..3 |-> Turn(ns[n].r, v)[i] + ns[n].t[i]])
Zero == <<0, 0, 0>>
SubV(a, b) == [i \in 1..3 |-> a[i] - b[i]]
Neg(a) == [i \in 1..3 |-> -a[i]]
NodesOk(ns, r, shown) ==
  LET Of(kind) == {n \in DOMAIN ns : ns[n].kind = kind}
      cyl == {[at |-> Global(ns, n, Zero), ax |-> LET a == SubV(Global(ns, n, <<0, 0, 10000>>), Global(ns, n, Zero)) IN {a, Neg(a)}, len |-> ns[n].dims[1], rad |-> ns[n].dims[2]] : n \in Of("cylinder")}
      got == {[at |-> x.p, ax |-> {x.ax, Neg(x.ax)}, len |-> x.len, rad |-> x.rad] : x \in Rng(shown.cyls)}
      mesh == {{Global(ns, n, v) : v \in Rng(ns[n].verts)} : n \in Of("mesh")}
  IN /\ cyl = got /\ Len(shown.cyls) = Cardinality(Of("cylinder"))
     /\ mesh = {Rng(m) : m \in Rng(shown.meshes)} /\ Len(shown.meshes) = Cardinality(Of("mesh"))
     /\ \A x \in Rng(shown.looks) : x.opacity = r.opacity /\ x.wire = r.wire
NodeBalls(ns) == [n \in {n \in DOMAIN ns : ns[n].kind = "sphere"} |-> [key |-> <<"ball", {Global(ns, n, Zero)}, ns[n].dims[1]>>, c |-> <<-1, -1, -1>>]]
\* ---- the display as a bag
Flat(key) == key[1] = "line" /\ Cardinality(key[2]) = 1
CNear(a, b) == a[1] < 0 \/ \A i \in 1..3 : Near(a[i], b[i], 1)
Seen(x) == [key |-> <<x.t, {x.a, x.b}, x.r>>, c |-> x.c]
\* want: function to items that must be there; may: items that may
Match(want, may, seen) ==
  LET ws == {k \in DOMAIN want : ~Flat(want[k].key)}
      ss == {k \in DOMAIN seen : ~Flat(seen[k].key)}
      keys == {want[k].key : k \in ws} \cup {seen[k].key : k \in ss}
  IN \A key \in keys :
       LET w == {k \in ws : want[k].key = key} s == {k \in ss : seen[k].key = key} m == {k \in DOMAIN may : may[k].key = key}
       IN /\ Cardinality(s) \in Cardinality(w)..(Cardinality(w) + Cardinality(m))
          /\ \A k \in s : (\E j \in w : CNear(want[j].c, seen[k].c)) \/ (\E j \in m : CNear(may[j].c, seen[k].c))
          /\ \A j \in w : \E k \in s : CNear(want[j].c, seen[k].c)
\* ---- a state: which parts <<k, name, j>> are still to be seen
AllParts(r, k) == {<<k, p[1], p[2]>> : p \in Parts(r.ops[k])}
Queue(r, k) == {j \in 1..k : r.ops[j].op = "hist" /\ Outcome(r.ops[j]) = "ok"}
Newer(S, j) == Cardinality({i \in S : i > j})
After(r, k, st) ==
  LET o == r.ops[k] t == o.target IN
  CASE o.op = "clear" -> {{}}
    [] o.op = "take" -> {st \ AllParts(r, t)}
    [] o.op = "one" -> IF r.ops[t].op \in {"hist", "path"} THEN {st \ {p} : p \in AllParts(r, t)} \cup {st \ AllParts(r, t)} ELSE {st \ AllParts(r, t)}
    [] o.op = "hist" /\ Outcome(o) = "ok" /\ r.max > 0 ->
         LET now == st \cup AllParts(r, k)
             shown == {p[1] : p \in now} \cap Queue(r, k)
             must == {j \in shown : Newer(shown, j) >= r.max}              \* too many newer ones are still there
             could == {j \in shown : Newer(Queue(r, k), j) >= r.max}        \* counting those taken away, too
         IN {{p \in now : p[1] \notin must \cup x} : x \in SUBSET (could \ must)}
    [] OTHER -> {st \cup AllParts(r, k)}
RECURSIVE NodesAt(_, _)
NodesAt(r, k) == IF k = 0 THEN <<>> ELSE IF r.ops[k].op = "clear" THEN <<>> ELSE IF r.ops[k].op = "render" THEN r.ops[k].nodes ELSE NodesAt(r, k - 1)
RECURSIVE Walk(_, _, _, _)
Walk(r, k, states, items) ==
  IF k > Len(r.ops) THEN "ok"
  ELSE LET o == r.ops[k]
           ns == NodesAt(r, k)
           balls == NodeBalls(ns)
           seen == TLCEval([i \in DOMAIN o.shown.things |-> Seen(o.shown.things[i])])
           next == UNION {After(r, k, st) : st \in states}
           Want(st) == [x \in st \cup {<<0, "node", n>> : n \in DOMAIN balls} |-> IF x[1] = 0 THEN balls[x[3]] ELSE items[x]]
           Maybe(st) == [j \in {j \in Queue(r, k) : May(r.ops[j]) /\ \E p \in st : p[1] = j} |-> MayItem(r.ops[j])]
           good == TLCEval({st \in next : Match(Want(st), Maybe(st), seen)})
       IN IF o.out # Outcome(o) THEN "outcome-" \o o.op
          ELSE IF good = {} THEN "display-" \o o.op
          ELSE IF ~NodesOk(ns, r, o.shown) THEN "nodes-" \o o.op
          ELSE Walk(r, k + 1, good, items)
Judge(r) == LET items == TLCEval([x \in UNION {AllParts(r, k) : k \in DOMAIN r.ops} |-> ItemOf(r.ops[x[1]], <<x[2], x[3]>>)]) IN Walk(r, 1, {{}}, items)
ColourOk(r) == IF \A i \in 1..3 : Near(r.rgb[i], Rgb(r.w \div 1000)[i], 1) THEN "ok" ELSE "colour"
Clause(r) == IF r.kind = "colour" THEN ColourOk(r) ELSE Judge(r)
Name(r) == LET c == Clause(r) IN IF c = "ok" THEN c ELSE "C27." \o c
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ PrintT(<<"V", i, Name(Recs[i])>>) /\ i' = i + 1
===============================================================================
