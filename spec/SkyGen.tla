------------------------------- MODULE SkyGen -------------------------------
(* random payloads and sequences of payloads a target is observed with *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT N
VARIABLE c
R(S) == RandomElement(S)
Exps(z0) == <<R(0..2), R(0..2), R(0..2)>>
Cover(z0) == R({<<1, 3>>, <<1, 3>>, <<1, 2>>, <<2, 3>>, <<2, 2>>})
Names == {<<"filter", "moon", "dust">>, <<"b", "a", "c">>, <<"dust", "filter2", "filter">>, <<"sky", "starlight", "haze">>, <<"sky", "sky", "haze">>, <<"dust", "haze", "dust">>, <<"zodiacal haze", "dust", "zodiac">>}
Custom(name) == CHOOSE f \in {[kind |-> "custom", name |-> name, rad |-> Exps(0), trans |-> t, lo |-> v[1], hi |-> v[2]]
                              : v \in {Cover(0)}, t \in {IF R(1..5) = 1 THEN <<1, 99, 0>> ELSE Exps(0)}} : TRUE
Zodi(z0) == LET a == R(0..2) IN CHOOSE f \in {[kind |-> "zodi", name |-> "zodi", rad |-> <<b, b, b>>, trans |-> <<0, 0, 0>>, lo |-> 1, hi |-> 3]
                              : b \in {a}} : TRUE
\* n custom foregrounds and the zodiacal light at position z (0: none)
List(n, z, names) == [i \in 1..(n + (IF z > 0 THEN 1 ELSE 0)) |->
                        IF i = z THEN Zodi(0) ELSE Custom(names[IF z > 0 /\ i > z THEN i - 1 ELSE i])]
ObsK(k) == CHOOSE o \in {List(k, z, names) : z \in {R(0..(k + 1))}, names \in {R(Names)}} : TRUE
Chan(z0) == CHOOSE h \in {[kind |-> k, zone |-> z, t |-> R(0..2), slit |-> IF k = "spec" /\ R(1..2) = 1 THEN R(1..4) ELSE 0,
                       force |-> 0] : k \in {R({"phot", "spec"})}, z \in {R(1..3)}} : TRUE
Init == \E i \in 1..N : \E n \in {R(1..3)} : \E m \in {R(1..3)} :
          c = [id |-> i, units |-> R(0..6), force |-> R({"True", "False", "absent"}), fresh |-> R(0..1),
               obs |-> [j \in 1..n |-> ObsK(R({0, 1, 1, 2, 2, 3}))], chans |-> [j \in 1..m |-> Chan(0)]]
Next == UNCHANGED c
Out == PrintT("CASE " \o ToJson(c))
=============================================================================
