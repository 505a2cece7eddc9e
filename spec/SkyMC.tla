------------------------------- MODULE SkyMC -------------------------------
EXTENDS Sky
CONSTANTS MaxF, MaxObs
F == {[name |-> n, rad |-> r, trans |-> t, lo |-> c[1], hi |-> c[2]] :
        n \in {"a"}, r \in {<<0, 1>>, <<2, Dark>>}, t \in {<<0, 0>>, <<1, 2>>, <<Dark, 1>>}, c \in {<<1, 2>>, <<2, 2>>}}
Lists == UNION {[1..k -> F] : k \in 0..MaxF}
MObserve == /\ past < MaxObs /\ (past > 0 => Done) /\ \E L \in Lists : Observe(L)
Next == MObserve \/ PassForeground
\* the same payload gives the same sky whatever came before
=============================================================================
