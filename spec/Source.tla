------------------------------- MODULE Source -------------------------------
(* Where a target's spectrum comes from.

   models   the stellar models in a folder: <<[T (hundreds of K), g, Z (tenths), id]>>
   tgt      the target: [has: attributes it has a value for, T (K), M, R (tenths of the sun's),
            D (tenths of a parsec), logg (thousandths)]
   sed      what the target carries: [which, scale, model, first, last, n, lum] or Nothing
   A spectrum is named: "bb" the blackbody of the target's temperature, "custom" the file's,
   a model's id for the models; scale multiplies it.                                   *)
EXTENDS Num, FiniteSets, TLC
VARIABLES models, tgt, sed
vars == <<models, tgt, sed>>
Nothing == [which |-> "none"]
Abs(x) == IF x < 0 THEN -x ELSE x
\* numpy rounds to even; generated temperatures avoid the middle
Hundreds(T) == (T + 50) \div 100
Dist(m) == 1000 * Abs(Hundreds(tgt.T) - m.T) + Abs(tgt.logg - 100 * m.g) + 100 * Abs(m.Z)
Set == {models[i] : i \in 1..Len(models)}
InReach == \E m \in Set : \E n \in Set : m.T <= Hundreds(tgt.T) /\ Hundreds(tgt.T) <= n.T
\* equally near models may be told apart by rounding
Nearest == {m.id : m \in {m \in Set : \A n \in Set : Dist(m) <= Dist(n) + 5}}
Needs(src) == IF src.kind = "custom" THEN {"R", "D"} ELSE {"R", "D", "M", "Teff"}
Complete(src) == Needs(src) \subseteq tgt.has
\* src [kind: planck / phoenix / custom / other, folder: "models" / "env" / "none" / "absent" / "empty"]
HasModels(src) == src.folder \in {"models", "env"} /\ models # <<>>
Outcome(src) == IF ~Complete(src) THEN "AttributeError"
                ELSE IF src.kind = "phoenix" /\ ~HasModels(src) THEN "OSError" ELSE "ok"
Spectra(src) == IF src.kind = "custom" THEN {"custom"}
                ELSE IF src.kind = "phoenix" /\ InReach THEN Nearest ELSE {"bb"}
\* (R / D)^2; the sun's radius 6957e5 m, a parsec 30857e12 m
Ratio == Div(Mul(Dec(tgt.R, -1), Dec(6957, 5)), Mul(Dec(tgt.D, -1), Dec(30857, 12)))
Pi == Dec(31416, -4)
Scale(w) == IF w = "bb" THEN Mul(Pi, Mul(Ratio, Ratio)) ELSE Mul(Ratio, Ratio)
\* solar luminosities: 4 pi R^2 times the flux of the spectrum at the star's surface
Lum(flux) == Div(Mul(Mul(Mul(Dec(4, 0), Pi), Mul(Mul(Dec(tgt.R, -1), Dec(6957, 5)), Mul(Dec(tgt.R, -1), Dec(6957, 5)))), flux), Dec(3828, 23))
Name(w) == IF w = "bb" THEN "Planck" ELSE IF w = "custom" THEN "Custom" ELSE w
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

Init == models = <<>> /\ tgt = [has |-> {}] /\ sed = Nothing
Scene(ms, t) == models' = ms /\ tgt' = t /\ sed' = Nothing
\* a to b, either way round, n points
Load(src, a, b, n) ==
    \/ Outcome(src) # "ok" /\ UNCHANGED vars
    \/ /\ Outcome(src) = "ok"
       /\ \E w \in Spectra(src) : sed' = [which |-> w, first |-> Min2(a, b), last |-> Max2(a, b), n |-> n]
       /\ UNCHANGED <<models, tgt>>
-----------------------------------------------------------------------------
\* a target gets some spectrum exactly when it may, and its own
Known == sed # Nothing => sed.which \in {"bb", "custom"} \cup {m.id : m \in Set}
NoWorse == (sed # Nothing /\ sed.which \notin {"bb", "custom"}) =>
              \A m \in Set : m.id = sed.which => \A n \in Set : Dist(m) <= Dist(n) + 5
Ordered == sed # Nothing => sed.first <= sed.last
=============================================================================
