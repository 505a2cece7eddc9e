------------------------------ MODULE CommandMC ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES words, set, mode, disk, left
L(l) == IF l = "l1" THEN {"s"} ELSE {"s", "u"}
C == INSTANCE Command WITH Lists <- L
W(o, v) == [opt |-> o, form |-> "short", val |-> v]
P1 == <<"in", "p1.xml">>
L1 == <<"in", "l1.csv">>
L2 == <<"in", "l2.csv">>
OA == <<"out", "a.h5">>
OI == <<"in", "a.h5">>
Ps == {P1, OA, <<"in", "no">>}
Ts == {L1, L2}
Os == {OA, OI, L2}
Maybe(w) == {<<>>, <<w>>}
Lines == {a \o <<W("t", t)>> \o o \o f : a \in {<<>>} \cup {<<W("p", p)>> : p \in Ps}, t \in Ts, o \in {<<>>} \cup {<<W("o", x)>> : x \in Os},
                                         f \in {<<>>, <<W("l", <<>>), W("c", <<>>)>>, <<W("P", <<>>)>>, <<W("bad", <<>>)>>, <<W("n", <<"3">>), W("help", <<>>)>>, <<W("n", <<"x">>)>>}}
MInit == C!Init /\ left = 3
MLay == /\ left = 3 /\ disk = [f \in {} |-> 0] /\ disk' = [f \in {P1, L1, L2} |-> IF f = P1 THEN C!Plain("payload", "p1") ELSE IF f = L1 THEN C!Plain("list", "l1") ELSE C!Plain("list", "l2")]
        /\ UNCHANGED <<words, set, mode, left>>
MStart == /\ DOMAIN disk # {} /\ left > 0 /\ left' = left - 1 /\ \E ws \in Lines : C!Start(ws)
MRead == C!Read /\ UNCHANGED left
MSettle == C!Settle /\ UNCHANGED left
\* a result without an instrument, or a list's name taken, is no payload
Fit == C!Sound => disk[set.p].kind \in {"payload", "result"} /\ disk[set.p].of # "" /\ disk[set.t].kind = "list"
MRun == Fit /\ C!Run /\ UNCHANGED left
MFail == \E k \in {0, 1} : C!Fail_(k) /\ UNCHANGED left
MNext == MLay \/ MStart \/ MRead \/ MSettle \/ MRun \/ MFail
Honest == C!Honest
Others == C!Others
Harmless == C!Harmless
Inputs == C!Inputs
=============================================================================
