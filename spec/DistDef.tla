-------------------------------- MODULE DistDef --------------------------------
(* A tabulated distribution: x ascending whole numbers, y whole numbers >= 0.    *)
(* Continuous tables weigh an interval by its trapezoid and spread that weight   *)
(* evenly inside it; histograms put the weight y[k] on x[k].  Probabilities are  *)
(* fractions of Total; positions inside an interval go in quarters.              *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Area(_, _)          \* up to grid point k: twice the area, or the sum of weights
Area(t, k) == IF t.hist THEN (IF k = 0 THEN 0 ELSE Area(t, k - 1) + t.y[k])
              ELSE IF k = 1 THEN 0 ELSE Area(t, k - 1) + (t.y[k - 1] + t.y[k]) * (t.x[k] - t.x[k - 1])
Total(t) == Area(t, Len(t.x))
\* position: grid point k plus i quarters of the gap after it
Places(t) == {<<k, i>> : k \in 1..(Len(t.x) - 1), i \in 0..3} \cup {<<Len(t.x), 0>>}
Gap(t, k) == IF k = Len(t.x) THEN 0 ELSE t.x[k + 1] - t.x[k]
X4(t, p) == 4 * t.x[p[1]] + p[2] * Gap(t, p[1])                                   \* four times x
Cdf4(t, p) == IF p[2] = 0 THEN 4 * Area(t, p[1]) ELSE 4 * Area(t, p[1]) + p[2] * (Area(t, p[1] + 1) - Area(t, p[1]))    \* of 4 Total
Y4(t, p) == 4 * t.y[p[1]] + (IF p[2] = 0 THEN 0 ELSE p[2] * (t.y[p[1] + 1] - t.y[p[1]]))
\* what may be drawn for the probability Cdf4(t, p): every x with the same cumulated weight (a stretch without weight), four times
Flat(t, p) == {X4(t, q) : q \in {q \in Places(t) : Cdf4(t, q) = Cdf4(t, p)}}
MinS(s) == CHOOSE a \in s : \A b \in s : a <= b
MaxS(s) == CHOOSE a \in s : \A b \in s : a >= b
\* a histogram's draw for a probability inside the weight of point k is x[k]
================================================================================
