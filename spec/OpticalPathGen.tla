--------------------------- MODULE OpticalPathGen ---------------------------
(* random payload descriptions for the real code *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT N
VARIABLE c
R(S) == RandomElement(S)
Often(n, x, S) == IF R(1..n) = 1 THEN R(S) ELSE x
Variants == {<<"none", FALSE, FALSE, "">>, <<"direct", TRUE, FALSE, "">>, <<"direct", FALSE, TRUE, "">>,
             <<"direct", TRUE, TRUE, "T">>, <<"direct", TRUE, TRUE, "R">>, <<"direct", TRUE, TRUE, "R">>,
             <<"direct", FALSE, TRUE, "R">>, <<"direct", TRUE, FALSE, "T">>,
             <<"file", TRUE, FALSE, "">>, <<"file", TRUE, TRUE, "">>, <<"file", FALSE, TRUE, "">>,
             <<"file", TRUE, TRUE, "R">>, <<"file", TRUE, TRUE, "T">>}
Exps(flat) == IF flat THEN R({<<a, a, a>> : a \in 0..3})
              ELSE R({<<a, b, d>> : a \in {0, 1, 2}, b \in {0, 1, 3}, d \in {0, 2, 3}} \cup
                     {<<1, 99, 0>>, <<99, 1, 2>>, <<99, 99, 99>>, <<2, 2, 99>>})
Ranges(flat) == IF flat THEN <<1, 3>> ELSE R({<<1, 3>>, <<1, 2>>, <<2, 3>>, <<2, 2>>, <<1, 1>>, <<3, 3>>})
Types == {"surface", "filter", "optics box", "detector box"}
Mk(name, ty, v, rg, T, Rf, em, te, sa, w) ==
    [name |-> name, type |-> ty, src |-> v[1], hasT |-> v[2], hasR |-> v[3], use |-> v[4],
     lo |-> rg[1], hi |-> rg[2], T |-> T, R |-> Rf, em |-> em, temp |-> te, sa |-> sa, w |-> w,
     wlcol |-> R(0..2), nounit |-> R(0..3), lower |-> R(0..1), idle |-> IF v[1] = "direct" THEN 0 ELSE Often(3, 0, 1..3), frac |-> R({0, 4, 9})]
Em(ty, v, flat) == IF v[1] = "file" THEN Exps(flat)
                   ELSE IF R(1..4) = 1 THEN <<-1, -1, -1>> ELSE LET a == R(0..3) IN <<a, a, a>>
El(name, ty, flat) ==
    CHOOSE x \in { Mk(name, ty, v, rg, Exps(flat), Exps(flat), Em(ty, v, flat),
                      IF R(1..5) = 1 THEN 0 ELSE R({250, 280, 310, 350, 400}),
                      IF R(1..4) = 1 THEN R({1, 5, 9, 10}) ELSE 0, 0)
                   : v \in {R(Variants)}, rg \in {Ranges(flat)} } : TRUE
Slit(name) == Mk(name, "slit", R({<<"none", FALSE, FALSE, "">>, <<"direct", TRUE, FALSE, "">>}), <<1, 3>>,
                 R({<<0,0,0>>, <<1,1,1>>}), <<0,0,0>>, R({<<-1,-1,-1>>, <<1,1,1>>}), R({0, 0, 300}), 0, R(1..5))
\* names that go against the alphabet, and some that others have too
Name(pre, i) == IF R(1..4) = 1 THEN R({"M", "W"}) ELSE pre \o ToString(9 - i)
Els(pre, n, sp, flat) ==
    [i \in 1..n |-> IF i = sp THEN Slit(Name(pre, i)) ELSE El(Name(pre, i), R(Types), flat)]
Channel(kind, n, sp, flat) ==
    CHOOSE x \in { [kind |-> kind, lo |-> r[1], hi |-> r[2], els |-> Els("e", n, sp, flat), flip |-> R(0..1),
                    win |-> R(1..6), npix |-> R({140, 141, 97, 118}), bend |-> R({0, 0, 5, -5}), qe |-> R(0..2)]
                   : r \in {R({<<1, 3>>, <<1, 2>>, <<2, 3>>, <<2, 2>>, <<3, 3>>})} } : TRUE
Slots(kind, n, flat, cs) == IF kind = "spec" /\ flat /\ ~cs /\ n > 0 /\ R(1..4) # 1 THEN R(1..n) ELSE 0
Init == \E i \in 1..N : \E flat \in {R({TRUE, FALSE})} : \E kinds \in {R({<<"phot">>, <<"spec">>, <<"phot", "spec">>, <<"spec", "phot">>, <<"spec", "spec">>})} :
        \E cs \in {flat /\ (\A j \in 1..Len(kinds) : kinds[j] = "spec") /\ R(1..3) = 1} :
        \E nc \in {R(0..3)} : \E ns \in {[j \in 1..Len(kinds) |-> R({0, 1, 2, 3, 4})]} :
        \E sps \in {[j \in 1..Len(kinds) |-> Slots(kinds[j], ns[j], flat, cs)]} :
          c = [id |-> i, units |-> R(0..6), pix |-> R({30, 27, 64, 70}), flat |-> flat, force |-> R({"True", "False", "absent"}),
               common |-> Els("c", nc, IF cs /\ nc > 0 THEN R(1..nc) ELSE 0, flat),
               channels |-> [j \in 1..Len(kinds) |-> Channel(kinds[j], ns[j], sps[j], flat)]]
Next == UNCHANGED c
Out == PrintT("CASE " \o ToJson(c))
=============================================================================
