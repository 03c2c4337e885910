------------------------------- MODULE OpticsTrace ------------------------------
(* Judges the real formulas.  Numbers are at 1e8 unless said otherwise.           *)
EXTENDS Fixed, TLC, Json, IOUtils
O == INSTANCE Optics WITH a <- 1, b <- 1, told <- FALSE
P == INSTANCE Physics
Recs == ndJsonDeserialize(IOEnv.RECS)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
MaxOf(s) == CHOOSE m \in {s[k] : k \in DOMAIN s} : \A k \in DOMAIN s : s[k] <= m
\* reflectance and directions from angle a to angle b; out is in the frame of the
\* tangent, the binormal and the normal towards which the ray travels
Fresnel(r) ==
  IF ~Near(r.R, O!Reflectance(r.a, r.b), 40) THEN "reflectance"
  ELSE IF ~NearV(r.bent, <<DivS(O!Sin(r.b), O!Hyp(r.b)), 0, DivS(O!Cos(r.b), O!Hyp(r.b))>>, 40) THEN "refracted"
  ELSE IF ~NearV(r.back, <<DivS(O!Sin(r.a), O!Hyp(r.a)), 0, -DivS(O!Cos(r.a), O!Hyp(r.a))>>, 40) THEN "reflected" ELSE "ok"
\* straight on: p : q the indices
Straight(r) == IF ~Near(r.R, O!Normal(r.p, r.q), 40) THEN "normal-incidence" ELSE IF ~NearV(r.bent, <<0, 0, ONE>>, 40) THEN "straight-on" ELSE "ok"
\* past the angle whose sine is the ratio of the indices nothing passes; short of it something does
Total(r) == IF r.past THEN (IF r.R = ONE THEN "ok" ELSE "not-total") ELSE (IF r.R < ONE /\ r.R >= 0 THEN "ok" ELSE "total-too-early")
\* wavelength against energy: 1239.84198 eV nm; the product of both columns, at 1e5, lost nothing, and back again
Convert(r) == IF \E k \in DOMAIN r.x : ~Near(r.product[k], 123984198, 200) THEN "energy"
              ELSE IF r.y # r.y1 \/ r.y # r.y2 THEN "values-changed" ELSE IF \E k \in DOMAIN r.x : ~Near(r.x[k], r.x2[k], 1) THEN "not-inverse"
              ELSE IF r.given # r.after THEN "argument-changed" ELSE "ok"
\* emission: y E^2 / (2^n - 1) where E lies n ln2 kT above the potential; relative to the highest energy and the lowest n
Weight(r, k) == LET q == DivS(r.e[k], MaxOf(r.e)) low == -MaxOf([j \in DOMAIN r.n |-> -r.n[j]])
                IN (r.y[k] * MulS(MulS(q, q), DivS(Pow2(low) - 1, Pow2(r.n[k]) - 1))) \div 5
Thermal(r) == LET w == [k \in DOMAIN r.n |-> Weight(r, k)] m == MaxOf(w) IN
   IF \E k \in DOMAIN r.n : ~Near(r.got[k], DivS(w[k], m), 20000) THEN "emission" ELSE IF \E k \in DOMAIN r.x : ~Near(r.x[k], r.x2[k], 1) THEN "wavelengths-changed" ELSE "ok"
\* height h at 1e8, t distances from the centre in thousandths of the width
Line(r) == IF \E k \in DOMAIN r.t : ~Near(r.got[k], MulS(r.h, P!ExpNeg(r.t[k] * r.t[k])), 60) THEN "gaussian" ELSE "ok"
Gap(r) == IF \E k \in DOMAIN r.t : r.got[k] # (IF r.t[k] < 0 THEN r.h ELSE IF r.t[k] > 0 THEN 0 ELSE r.h \div 2) THEN "bandgap" ELSE "ok"
\* bundled dyes: at least nothing, at most one (to a per cent), at which they peak where documented
Dye(r) == IF \E k \in DOMAIN r.got : r.got[k] < 0 \/ r.got[k] > ONE + 1000000 THEN "dye-range" ELSE IF ~Near(MaxOf(r.got), ONE, 1000000) THEN "dye-peak" ELSE "ok"
\* the published colours
Ramp(n, d) == (1000 * n) \div d
Rgb(w) == CASE w >= 380 /\ w < 440 -> <<Ramp(440 - w, 90), 0, 1000>> [] w >= 440 /\ w < 490 -> <<0, Ramp(w - 440, 50), 1000>>
            [] w >= 490 /\ w < 510 -> <<0, 1000, Ramp(510 - w, 20)>> [] w >= 510 /\ w < 580 -> <<Ramp(w - 510, 70), 1000, 0>>
            [] w >= 580 /\ w < 645 -> <<1000, Ramp(645 - w, 65), 0>> [] w >= 645 /\ w <= 780 -> <<1000, 0, 0>> [] OTHER -> <<0, 0, 0>>
Dim(w) == CASE w >= 380 /\ w < 420 -> 300 + (700 * (w - 350)) \div 70 [] w >= 420 /\ w <= 700 -> 1000 [] w > 700 /\ w <= 780 -> 300 + (700 * (780 - w)) \div 80 [] OTHER -> 0
Shade(v, s) == (((v * s) \div 1000) * 255) \div 1000
Colour(r) == IF \E k \in 1..3 : r.rgb[k] < 0 \/ r.rgb[k] > 255 THEN "colour-range"
             ELSE IF \E k \in 1..3 : ~Near(r.rgb[k], Shade(Rgb(r.w)[k], Dim(r.w)), 1) THEN "colour"
             ELSE IF r.hex # r.rgb[1] * 65536 + r.rgb[2] * 256 + r.rgb[3] THEN "packed" ELSE "ok"
Cut(v) == Max2(0, Min2(255, v))
Packed(r) == IF r.hex # Cut(r.rgb[1]) * 65536 + Cut(r.rgb[2]) * 256 + Cut(r.rgb[3]) THEN "packed-any" ELSE "ok"
Clause(r) == CASE r.kind = "fresnel" -> Fresnel(r) [] r.kind = "straight" -> Straight(r) [] r.kind = "total" -> Total(r) [] r.kind = "convert" -> Convert(r)
               [] r.kind = "thermal" -> Thermal(r) [] r.kind = "line" -> Line(r) [] r.kind = "gap" -> Gap(r) [] r.kind = "dye" -> Dye(r) [] r.kind = "colour" -> Colour(r)
               [] OTHER -> Packed(r)
Name(r) == LET c == Clause(r) IN IF c = "ok" THEN c ELSE "C31." \o c
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ PrintT(<<"V", i, Name(Recs[i])>>) /\ i' = i + 1
================================================================================
