---------------------------------- MODULE Forms ---------------------------------
(* The ways a component can be given its spectra, yield and lifetimes, and what  *)
(* each must mean.  Every combination is printed to be built for real.           *)
EXTENDS DistDef, TLC, Json, IOUtils
Classes == {"Absorber", "Reactor", "Scatterer", "Luminophore"}
Numbers == {"number", "integer", "numpy-float", "numpy-integer"}
Tables == {"array", "integer-array", "list", "tuple", "list-array-x", "functions", "functions-tuple", "functions-nan", "dark"}
Wrong == {"nothing", "text", "list-no-x", "functions-no-x", "unsorted", "negative", "short-x", "repeated-x",
          "nan-value", "infinite-value", "list-nan", "nan-x", "infinite-x"}
CoefForms == Numbers \cup Tables \cup Wrong
EmForms == {"default"} \cup Tables \cup (Wrong \ {"nothing"}) \cup {"number"}
Yields == {"default", "given", "zero", "none", "both", "both-given", "none-both", "radiative", "nonradiative", "none-radiative", "both-zero"}
\* the yield in thousandths, or refused (-1); given: q, lifetimes: rad and nr nanoseconds
YieldOf(y, q, rad, nr) == CASE y \in {"default", "radiative", "nonradiative"} -> 1000
                            [] y = "given" -> q [] y = "zero" -> 0
                            [] y \in {"both", "both-given", "none-both"} -> (1000 * nr) \div (nr + rad)
                            [] OTHER -> -1
HasRad(y) == y \in {"both", "both-given", "none-both", "radiative", "none-radiative"}
HasNr(y) == y \in {"both", "both-given", "none-both", "nonradiative"}
Ends(cls) == cls \in {"Absorber", "Reactor"}
Built(c) == /\ c.coef \notin Wrong /\ c.em \notin Wrong \cup {"number", "dark"}   \* nothing can be emitted in the dark
            /\ (~Ends(c.cls) => YieldOf(c.yield, 500, 1, 1) >= 0)
Cases == {[cls |-> cls, coef |-> f, em |-> "default", hist |-> h, yield |-> "default"] : cls \in Classes, f \in CoefForms, h \in BOOLEAN}
   \cup {[cls |-> "Luminophore", coef |-> f, em |-> e, hist |-> h, yield |-> "default"] : f \in {"number", "array"}, e \in EmForms, h \in BOOLEAN}
   \cup {[cls |-> cls, coef |-> "number", em |-> "default", hist |-> FALSE, yield |-> y] : cls \in {"Scatterer", "Luminophore"}, y \in Yields}
   \cup {[cls |-> "Absorber", coef |-> f, em |-> "default", hist |-> FALSE, yield |-> "nonradiative"] : f \in {"number", "array"}}
VARIABLES case, told
Init == case \in Cases /\ told = FALSE
Next == ~told /\ told' = TRUE /\ UNCHANGED case /\ PrintT(<<"V", case.cls, case.coef, case.em, case.hist, case.yield>>)
Inv == Built(case) => case.coef \in Numbers \cup Tables
================================================================================
