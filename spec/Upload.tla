-------------------------------- MODULE Upload -------------------------------
(* What a studio may write.  File names are strings of pieces; a name stands   *)
(* for the part after its last separator, in the folder of the document, and   *)
(* only if that part ends in .csv or .txt.  TLC writes out every name of up to *)
(* four pieces, and judges what each request did to the files.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANT Mode
\* pieces: "/" separates; the others are parts of a name (their ending is what the last one ends in)
Pieces == {"/", "..", ".", "a", ".csv", ".TXT", "\\", "sub", "~", " ", "%2e%2e%2f", "ROOT/", ".exe", "NUL", "COLON", "scene.yml", "e-acute", "-", "*"}
Strings == UNION {[1..n -> Pieces] : n \in 1..3} \cup {s \in [1..4 -> {"/", "..", "a", ".csv", "ROOT/", "sub"}] : TRUE}
\* the part after the last separator
IsSep(p) == p \in {"/", "ROOT/"}
After(s) == LET k == CHOOSE k \in 0..Len(s) : (k = 0 \/ IsSep(s[k])) /\ \A j \in (k + 1)..Len(s) : ~IsSep(s[j]) IN SubSeq(s, k + 1, Len(s))
Ends(b) == b # <<>> /\ b[Len(b)] \in {".csv", ".TXT"}
Odd(s) == \E k \in DOMAIN s : s[k] = "NUL"
Accepts(s) == Ends(After(s)) /\ ~Odd(After(s))
VARIABLE i
Recs == IF Mode = "judge" THEN ndJsonDeserialize(IOEnv.RECS) ELSE <<>>
Init == i = 1
\* a record: the request, its status, what appeared or changed (paths relative to the folder), content right, what the answer said
Verdict(r) ==
  IF \E p \in ToSet(r.changed) : p.out THEN "C24.outside"
  ELSE IF r.ran THEN "C24.code"
  ELSE CASE r.kind = "upload" ->
         IF r.status # 200 THEN (IF r.changed # <<>> THEN "C24.refused-wrote" ELSE IF r.must = "accept" THEN "C24.refused" ELSE "ok")
         ELSE IF r.must = "refuse" THEN "C24.accepted"
         ELSE IF r.named /\ ~Accepts(r.pieces) THEN "C24.accepted"
         ELSE IF Len(r.changed) > 1 THEN "C24.many"
         ELSE IF \E p \in ToSet(r.changed) : p.name # r.base THEN "C24.name"
         ELSE IF ~r.content THEN "C24.content"
         ELSE IF r.saved # r.base THEN "C24.answer" ELSE "ok"
    [] r.kind = "save" -> IF \E p \in ToSet(r.changed) : p.name # "scene.yml" THEN "C24.save-elsewhere" ELSE "ok"
    [] OTHER -> IF r.changed # <<>> THEN "C24.left-behind" ELSE "ok"
Next == IF Mode = "names" THEN i = 1 /\ i' = 2 /\ ndJsonSerialize(IOEnv.OUT, SetToSeq({[pieces |-> s, accept |-> Accepts(s)] : s \in Strings}))
        ELSE i <= Len(Recs) /\ PrintT(<<"V", i, Verdict(Recs[i]), 0>>) /\ i' = i + 1
==============================================================================
