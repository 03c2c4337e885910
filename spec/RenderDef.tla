------------------------------ MODULE RenderDef -------------------------------
(* What of a history is drawn, shared by the model and the judge.              *)
EXTENDS Integers, Sequences, FiniteSets
FirstExit(ev) == CHOOSE k \in 1..Len(ev) : ev[k] = "exit" /\ \A j \in 1..(k - 1) : ev[j] # "exit"
HasExit(ev) == \E k \in 1..Len(ev) : ev[k] = "exit"
Cut(ev, mode) == IF mode = "exclude" /\ HasExit(ev) THEN FirstExit(ev) - 1 ELSE Len(ev)   \* entries kept
Fate(ev, mode) == IF mode \notin {"exclude", "short"} THEN "refused"
                  ELSE IF Cut(ev, mode) >= 2 THEN "drawn"
                  ELSE IF mode = "exclude" /\ HasExit(ev) THEN "nothing" ELSE "refused"
Segments(ev, mode) == 1..(Cut(ev, mode) - 1)             \* segment j runs from entry j to j + 1
Balls(ev, mode) == {j \in Segments(ev, mode) : ev[j] = "transmit"}
\* in short mode the last segment of a ray that left the scene is drawn short
IsShort(ev, mode, j) == mode = "short" /\ j = Len(ev) - 1 /\ ev[Len(ev)] = "exit"
\* colours: the wavelength's hue scaled by how well the eye sees it, 0..255, from a whole number of nanometres
Ramp(a, b, s, t) == ((255 * a) * s) \div (b * t)          \* 255 (a/b) (s/t)
Rgb(w) ==
  LET v == IF w >= 380 /\ w < 420 THEN <<21 * 10 + 7 * (w - 350), 700>>       \* 0.3 + 0.7 (w - 350) / 70
           ELSE IF w >= 420 /\ w <= 700 THEN <<1, 1>>
           ELSE IF w > 700 /\ w <= 780 THEN <<240 + 7 * (780 - w), 800>>       \* 0.3 + 0.7 (780 - w) / 80
           ELSE <<0, 1>>
      F(a, b) == Ramp(a, b, v[1], v[2])
  IN CASE w >= 380 /\ w < 440 -> <<F(440 - w, 90), 0, F(1, 1)>>
       [] w >= 440 /\ w < 490 -> <<0, F(w - 440, 50), F(1, 1)>>
       [] w >= 490 /\ w < 510 -> <<0, F(1, 1), F(510 - w, 20)>>
       [] w >= 510 /\ w < 580 -> <<F(w - 510, 70), F(1, 1), 0>>
       [] w >= 580 /\ w < 645 -> <<F(1, 1), F(645 - w, 65), 0>>
       [] w >= 645 /\ w <= 780 -> <<F(1, 1), 0, 0>>
       [] OTHER -> <<0, 0, 0>>
ASSUME \A w \in 300..900 : \A k \in 1..3 : Rgb(w)[k] \in 0..255
===============================================================================
