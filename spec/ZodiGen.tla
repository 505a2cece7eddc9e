------------------------------- MODULE ZodiGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANT N
VARIABLE c
R(S) == RandomElement(S)
Entry(z0) == [ra |-> R(0..359), dec |-> R((-89)..89), coef |-> R(5..400)]
Init == \E i \in 1..N : \E n \in {R(2..9)} : \E own \in {R({TRUE, TRUE, FALSE})} :
        c = [id |-> i, own |-> own, sky |-> IF own THEN [j \in 1..n |-> Entry(0)] ELSE <<>>,
             desc |-> [map |-> R({"on", "on", "on", "off", "absent"}), factor |-> R({-1, 0, 130, 250, 77, 100}),
                       file |-> IF own THEN R({"good", "good", "good", "bad"}) ELSE "none"],
             bad |-> R({"text", "column"}),
             has |-> R(0..4), lack |-> R({"columns", "blank", "blank dec", "no dec", "no ra"}), ra |-> R(0..359), dec |-> R((-89)..89), unit |-> R({"deg", "rad", "hourangle"}),
             via |-> R({"class", "task", "target"}), lo |-> R({1, 2}), hi |-> R({5, 8})]
Next == UNCHANGED c
Out == PrintT("CASE " \o ToJson(c))
=============================================================================
