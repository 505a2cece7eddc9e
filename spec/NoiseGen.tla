------------------------------ MODULE NoiseGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, K
VARIABLE c
R(S) == RandomElement(S)
Parts(z0) == R({<<"instrument", "star">>, <<"instrument", "zodi", "star">>, <<"instrument", "filter", "zodi", "star">>,
            <<"element M1", "element signal", "star">>, <<"element M1", "element box", "noisy signal", "Maximum", "star">>})
Row(ch, wl, n, dim) == CHOOSE r \in {[ch |-> ch, win |-> w, wl |-> wl, sig |-> s, max |-> m] :
     w \in {R(1..20)}, s \in {TLCEval([k \in 1..n |-> IF k = n /\ R(1..6) = 1 THEN 0 ELSE R(IF dim = 1 THEN 0..5 ELSE 0..150)])},
     m \in {TLCEval([k \in 1..n |-> IF k = 1 THEN R(1..4) ELSE R(0..4)])}} : TRUE
Custom(name, kind) == CHOOSE cu \in {[name |-> name, kind |-> kind, p |-> IF kind = "flat" THEN p ELSE 1] : p \in {R({1, 2, 3, 3, 3, 9})}} : TRUE
Kinds(z0) == <<R({"flat", "flat", "slope"}), R({"flat", "flat", "slope"}), R({"flat", "slope"})>>
CustomsOf(k, names, kinds) == [i \in 1..k |-> Custom(names[i], kinds[i])]
Chan(j) == CHOOSE h \in {[well |-> w, f10 |-> f, ft |-> t, freq10 |-> q, m |-> m, dark |-> d, rn |-> r, x10 |-> x, customs |-> cu] :
     w \in {R({40, 100, 200})}, f \in {R({5, 8, 10})}, t \in {R({0, 0, 3, 20, 90})}, q \in {R({0, 1, 2, 5, 7})}, m \in {R({0, 0, 1, 2, 3, 4})},
     d \in {R(0..4)}, r \in {R(0..6)}, x \in {R({-1, 0, 2, 4, 10})},
     cu \in {TLCEval(CustomsOf(R({0, 0, 1, 2, 3}), IF j = 1 THEN R({<<"p1", "q1", "r1">>, <<"p1", "gain", "r1">>}) ELSE IF j = 2 THEN R({<<"p2", "gain 2", "r2">>, <<"p1", "r1", "q2">>}) ELSE R({<<"p3", "q3", "r3">>, <<"gain 2", "p1", "jitter">>}), Kinds(0)))}} : TRUE
RECURSIVE Rows(_, _, _, _)
Rows(sizes, j, n, dim) == IF j > Len(sizes) THEN <<>> ELSE [i \in 1..sizes[j] |-> Row(j, i, n, dim)] \o Rows(sizes, j + 1, n, dim)
Observation(i) == \E ps \in {Parts(0)} : \E sizes \in {TLCEval([j \in 1..R(1..3) |-> R(1..5)])} : \E dim \in {R(0..1)} :
    c = [id |-> i, kind |-> "target", units |-> R(0..6), parts |-> ps, chans |-> TLCEval([j \in 1..Len(sizes) |-> Chan(j)]),
         rows |-> TLCEval(Rows(sizes, 1, Len(ps), dim)),
         common |-> CustomsOf(R({0, 1, 1, 2, 3}), <<"gain", "jitter", "drift">>, Kinds(0)), shuffle |-> R(0..1), again |-> R(1..2)]
\* frame time [ms, s, min] and reading frequency [0.1 Hz] in the units they are given in
Gain(i) == \E t \in {R({[ms |-> R(1..2000), unit |-> "ms"], [ms |-> 1000 * R(1..20), unit |-> "s"], [ms |-> 60000 * R(1..3), unit |-> "min"], [ms |-> 250 * R(1..80), unit |-> "s"]})} :
           \E f \in {R(IF t.ms > 20000 THEN {[dhz |-> R(0..8), unit |-> "Hz"]}
                       ELSE IF t.ms > 2000 THEN {[dhz |-> R(0..70), unit |-> "Hz"], [dhz |-> R(0..70), unit |-> "1/min"]}
                       ELSE {[dhz |-> R(0..700), unit |-> "Hz"], [dhz |-> R(0..700), unit |-> "kHz"]})} :
    c = [id |-> i, kind |-> "gain", ms |-> t.ms, tunit |-> t.unit, dhz |-> f.dhz, funit |-> f.unit, m |-> R(0..4)]
Init == (\E i \in 1..N : Observation(i)) \/ (\E i \in (N + 1)..(N + K) : Gain(i))
Next == UNCHANGED c
Out == PrintT("CASE " \o ToJson(c))
=============================================================================
