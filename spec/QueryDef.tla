------------------------------ MODULE QueryDef ------------------------------
(* What the database commands select.  A row: t (throw), kind, hit, adj, cont *)
(* (node names, "" for none), facet, hasn, n (normal), src, wl, dur (values). *)
(* A query: cmd, node, n = <<has, value>> per axis, atol, facet, source.      *)
EXTENDS Integers, Sequences, FiniteSets
QAbs(x) == IF x < 0 THEN -x ELSE x
Surface == {"reflected", "entering", "escaping"}
Kind(cmd) == CASE cmd = "reflected" -> "REFLECT" [] cmd \in {"entering", "escaping"} -> "TRANSMIT"
               [] cmd = "lost" -> "NONRADIATIVE" [] cmd = "reacted" -> "REACT" [] cmd = "killed" -> "KILL"
Where(r, q) ==
  IF q.cmd \in Surface
  THEN r.hit = q.node /\ (IF q.cmd = "escaping" THEN r.cont = q.node ELSE r.adj = q.node)
  ELSE r.cont = q.node
Normal(r, q) == \A a \in 1..3 : q.n[a][1] => r.hasn /\ QAbs(q.n[a][2] - r.n[a]) <= q.atol
Match(r, q) ==
  /\ r.kind = Kind(q.cmd) /\ Where(r, q)
  /\ q.cmd \in Surface => Normal(r, q) /\ (q.facet # "" => r.facet = q.facet)
  /\ q.source # "" => r.src = q.source
Sel(db, q) == {i \in DOMAIN db : Match(db[i], q)}
Throws(db, q) == {db[i].t : i \in Sel(db, q)}
Count(db, q) == Cardinality(Throws(db, q))
Pairs(db, q, what) == {<<db[i].t, IF what = "spectrum" THEN db[i].wl ELSE db[i].dur>> : i \in Sel(db, q)}
(* the rows kept when only end rays are stored                                *)
End(r) == CASE r.kind \in {"EMIT", "SCATTER", "ABSORB"} -> FALSE
            [] r.kind = "REFLECT" -> r.hit = r.adj
            [] r.kind = "TRANSMIT" -> r.hit = r.adj \/ r.hit = r.cont
            [] OTHER -> TRUE
(* two listings tell the same, whatever number each throw was given           *)
ValuesOf(s, t) == {p[2] : p \in {x \in s : x[1] = t}}
SameUpToNumbering(a, b) ==
  LET ta == {p[1] : p \in a}  tb == {p[1] : p \in b}
      va == [t \in ta |-> ValuesOf(a, t)]  vb == [t \in tb |-> ValuesOf(b, t)]
  IN \A s \in {va[t] : t \in ta} \cup {vb[t] : t \in tb} :
       Cardinality({t \in ta : va[t] = s}) = Cardinality({t \in tb : vb[t] = s})
=============================================================================
