---------------------------------- MODULE Lsc ----------------------------------
(* The LSC device: what its surfaces do to a ray, for every choice of solar     *)
(* cells and mirrors, and that its bookkeeping accounts for each ray once.      *)
(* Whole ray histories are printed and fed to the real device's bookkeeping.    *)
EXTENDS LscDef, TLC, SequencesExt
CONSTANTS Depth, Emit
VARIABLES cfg, h, at, done, told
vars == <<cfg, h, at, done, told>>
CellSets == {{}, {"left"}, {"near"}, {"far", "right"}, Sides}
Lights == {"lamp", "sun"}
Comps == {"dye", "dust", "red"}
E(e, f, s) == [e |-> e, f |-> f, src |-> s, w |-> 0]
Src == h[Len(h)].src
Cell(f) == f \in cfg.cells
Mirror(f) == f = "bottom" /\ cfg.mirror
Go(e, f, s, where) == h' = Append(h, E(e, f, s)) /\ at' = where /\ done' = (where = "end") /\ UNCHANGED <<cfg, told>>
\* outside the device (a ray that was inside leaves it for good, unless the mirror below sends it back)
Fresh == Len(h) = 1
Hit == at = "out" /\ \E f \in (IF Fresh THEN Facets ELSE IF h[Len(h)].f = "other" THEN {"bottom"} ELSE {}) :
          \/ ~Mirror(f) /\ Go("transmit", f, Src, "in")
          \/ ~Cell(f) /\ Go("reflect", f, Src, "out")
Gap == at = "out" /\ cfg.gap /\ (Fresh \/ h[Len(h)].f = "bottom") /\ Go("reflect", "other", Src, "out")
Gone == at = "out" /\ Go("exit", "", Src, "end")
Leave == at = "in" /\ \E f \in Facets : \/ ~Mirror(f) /\ Go("transmit", f, Src, "out")
                                        \/ ~Cell(f) /\ Go("reflect", f, Src, "in")
Absorb == at = "in" /\ Go("absorb", "", Src, "taken")
Back == at = "taken" /\ \E c \in {"dye", "red"} : Go("emit", "", c, "in")
NoBack == at = "taken" /\ \E e \in {"nonradiative", "react"} : Go(e, "", Src, "end")
Scatter == at = "in" /\ Go("scatter", "", Src, "in")
Kill == at = "in" /\ Go("kill", "", Src, "end")
Init == /\ cfg \in [cells : CellSets, mirror : BOOLEAN, gap : BOOLEAN] /\ done = FALSE /\ told = FALSE /\ at = "out"
        /\ \E s \in Lights : h = <<E("generate", "", s)>>
Report == /\ done /\ ~told /\ told' = TRUE /\ UNCHANGED <<cfg, h, at, done>>
          /\ (IF Emit THEN PrintT(<<"V", SetToSeq(cfg.cells), cfg.mirror, cfg.gap, [k \in DOMAIN h |-> <<h[k].e, h[k].f, h[k].src>>]>>) ELSE TRUE)
Step == Len(h) < Depth /\ (Hit \/ Gap \/ Gone \/ Leave \/ Absorb \/ Back \/ NoBack \/ Scatter \/ Kill)
End == Len(h) >= Depth /\ ~done /\ (IF at = "out" THEN Gone ELSE IF at = "taken" THEN NoBack ELSE Kill)
Next == Step \/ End \/ Report
\* ---- what has to follow for every finished ray
Rows == RowsOf(<<h>>, 1)
OneFate == done => Fate(h) # "?"
Twice == done => /\ Cardinality({k \in DOMAIN Rows : Rows[k].kind = "first"}) = 1 /\ Cardinality({k \in DOMAIN Rows : Rows[k].kind = "last"}) = 1
SourcesKnown == done => \A k \in DOMAIN Rows : Rows[k].src \in Lights \cup Comps
\* solar light in equals what became of it: out by a facet as solar or luminescent light, lost or killed
Adds == done => Incident(Rows, Lights) = Collected(Rows, cfg.cells, Comps \cup Lights) + Escaped(Rows, cfg.cells, Comps \cup Lights) + LostOf(Rows, Lights \cup Comps)
                                         + (IF Fate(h) = "killed" THEN 1 ELSE 0)
CellsTakeAll == \A k \in DOMAIN h : h[k].f \in cfg.cells => h[k].e = "transmit"
MirrorKeeps == cfg.mirror => \A k \in DOMAIN h : h[k].f = "bottom" => h[k].e = "reflect"
NothingIn == done => Num(Rows, "first", "top", Comps) = 0
Inv == OneFate /\ Twice /\ SourcesKnown /\ Adds /\ CellsTakeAll /\ MirrorKeeps /\ NothingIn
================================================================================
