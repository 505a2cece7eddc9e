--------------------------- MODULE StarlightGen ---------------------------
(* random channels and a star's light; photons are put only where the response
   is settled: away from the steps of transmission and efficiency, and not just
   inside forced edges (the transmission is sampled there)                     *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANT N
VARIABLE c
R(S) == RandomElement(S)
Exps(z) == <<R({0, 0, 1, 2, 3}), R({0, 1, 2, 99}), R({0, 1, 2, 99})>>
Flat3(z) == LET a == R(0..2) IN CHOOSE f \in {<<b, b, b>> : b \in {a}} : TRUE
Los(z) == R({1100, 1250, 1510, 1950, 2200, 2900, 3700})
Chan(flat) == CHOOSE d \in {LET lo == Los(0) hi == lo + R({300, 450, 700, 1100, 1900, 2800, 3300}) k == R({"phot", "spec", "spec"}) IN
      [class |-> k, lo |-> lo, hi |-> hi, t |-> IF flat THEN Flat3(0) ELSE Exps(0), q |-> IF flat THEN Flat3(0) ELSE Exps(0),
       mode |-> R({"R", "native"}), R |-> R({3, 5, 8, 13, 60}), npix |-> R({60, 97, 140}), flip |-> R(0..1),
       corr |-> IF k = "phot" THEN R({0, 0, 91, 50}) ELSE 0, ene |-> IF k = "phot" THEN R({0, 0, 80, 37}) ELSE 0,
       atunit |-> R({"um", "nm"}), qefile |-> R(0..1)] : j \in {1}} : TRUE
RECURSIVE Walk(_, _, _)
Walk(w, end, s) == IF w > end THEN {} ELSE {w} \cup Walk(w + R(s), end, s)
Steps(z) == R({{5, 10, 30, 60, 150, 300, 700}, {20, 40, 250}, {250}, {7, 400, 900}, {150, 160}})
\* forced edges and steps of the response
Settled(w, g, chs, force) ==
    /\ \A e \in {1000, 2000, 4000, 8000} : w + g < (e * 97) \div 100 \/ w - g > (e * 103) \div 100
    /\ force => \A h \in 1..Len(chs) : \/ w > chs[h].hi \/ w < chs[h].lo
                                       \/ (w - g > (chs[h].lo * 103) \div 100 /\ w + g < (chs[h].hi * 97) \div 100)
Light(pos, chs, force, flat) ==
    [k \in 1..Len(pos) |->
       LET g == IF k = 1 \/ k = Len(pos) THEN 0 ELSE (pos[k + 1] - pos[k - 1]) \div 2
       IN <<pos[k], IF flat THEN 100 ELSE IF Settled(pos[k], g, chs, force) /\ k > 1 /\ k < Len(pos) THEN R({0, 1, 3, 50, 400}) ELSE 0>>]
Case(i) ==
    LET flat == R(1..4) = 1
        force == R({"True", "False", "absent"})
        chs == TLCEval([j \in 1..R(1..3) |-> Chan(flat)])
        st == TLCEval(Steps(0))
        edges == IF flat THEN {} ELSE UNION {{chs[j].lo - 2, chs[j].hi + 2} : j \in 1..Len(chs)}
        pos == TLCEval(SetToSortSeq(IF flat THEN Walk(1050, 7800, R({{5, 10, 30}, {20, 25}, {250}, {150, 160}})) ELSE Walk(R({900, 980, 1210}), R({8200, 7700, 5000}), st) \cup edges, <))
    IN [id |-> i, units |-> R(0..6), flat |-> IF flat THEN 1 ELSE 0, force |-> IF flat THEN "absent" ELSE force, chans |-> chs, atel |-> R({50, 7, 123}), aunit |-> R({"m**2", "cm**2"}),
        nm |-> R(0..1), star |-> Light(pos, chs, force = "True", flat)]
Init == \E i \in 1..N : \E x \in {Case(i)} : c = x
Next == UNCHANGED c
Out == PrintT("CASE " \o ToJson(c))
=============================================================================
