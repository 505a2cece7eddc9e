------------------------------ MODULE SourceGen ------------------------------
(* random folders of models, targets with or without what is needed, and
   sequences of spectra asked for                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT N
VARIABLE c
R(S) == RandomElement(S)
\* masses and radii [tenths] with the surface gravity they mean
Bodies == {<<10, 10, 4438>>, <<5, 5, 4739>>, <<10, 20, 3836>>, <<10, 100, 2438>>, <<2, 2, 5137>>, <<15, 13, 4386>>, <<1, 2, 4836>>, <<300, 120, 3757>>}
Temps == {2510, 2990, 3045, 3120, 3960, 4330, 5440, 5472, 5500, 6130, 7040, 9910}
Ts(z) == R({{25, 30, 31}, {30, 40, 50, 60}, {54, 55}, {44}, {26, 54, 61, 70}, {20, 99}, {20, 54, 55, 99}, {20, 45, 70, 99}})
Model(j, ts) == CHOOSE m \in {[T |-> R(ts), g |-> R({35, 40, 45, 50, 25}), Z |-> R({0, 0, 5, -5, -10, 3}), pow |-> j - 7] : i \in {1}} : TRUE
Folder(z) == LET ts == TLCEval(Ts(0)) IN [j \in 1..R({1, 4, 8, 12}) |-> Model(j, ts)]
\* at the ends of what the models reach, or anywhere
Near(ms) == LET m == ms[R(1..Len(ms))] IN 100 * m.T + R({-120, -40, -2, 0, 10, 47, 130})
Star(ms) == CHOOSE s \in {LET b == TLCEval(R(Bodies)) IN [M |-> b[1], R |-> b[2], logg |-> b[3], T |-> LET k == R(1..5) IN IF k <= 2 THEN R(Temps) ELSE IF k <= 4 THEN Near(ms) ELSE R({1200, 1990, 11000, 15000}), D |-> R({10, 123, 300, 4567}),
             lack |-> R({{}, {}, {}, {}, {}, {"R"}, {"D"}, {"M"}, {"Teff"}, {"M", "Teff"}}), how |-> R({"blank", "absent"}),
             Ru |-> R({"R_sun", "km"}), Du |-> R({"pc", "m", "lyr"}), Mu |-> R({"M_sun", "kg"}), Tu |-> "K"] : i \in {1}} : TRUE
Ask(z) == CHOOSE a \in {[name |-> R({"planck", "Planck", "PLANCK", "phoenix", "Phoenix", "phoenix", "phoenix", "custom", "Custom", "kurucz", "black body"}),
             folder |-> R({"models", "models", "models", "env", "none", "absent", "empty"}),
             a |-> R({1000, 1500, 2500}), b |-> R({4000, 7800, 3100}), flip |-> R(0..1), unit |-> R({"um", "nm", "mixed", "mixed2", "plain"}), n |-> R({97, 301, 500}),
             cunit |-> R(0..1), table |-> R(0..1)] : i \in {1}} : TRUE
Init == \E i \in 1..N : \E ms \in {TLCEval(Folder(i))} : \E x \in {[id |-> i, models |-> ms, style |-> R(0..2), munit |-> R(0..1), star |-> Star(ms),
                                     asks |-> TLCEval([j \in 1..R(1..4) |-> Ask(j)])]} : c = x
Next == UNCHANGED c
Out == PrintT("CASE " \o ToJson(c))
=============================================================================
