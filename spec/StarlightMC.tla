---------------------------- MODULE StarlightMC ----------------------------
EXTENDS Starlight
CONSTANT MaxN
Base == [class |-> "spec", lo |-> 1200000, hi |-> 2500000, force |-> 0, bins |-> <<<<1200000, 1600000>>, <<1600000, 2100000>>, <<2100000, 2600000>>>>,
         t |-> <<0, 1, 99>>, q |-> <<1, 0, 0>>, atel |-> 50, corr |-> 0, ene |-> 0]
Chans == {[Base EXCEPT !.force = f, !.t = t] : f \in 0..1, t \in {<<0, 1, 99>>, <<2, 0, 0>>}}
         \cup {[Base EXCEPT !.class = "phot", !.force = f, !.bins = <<<<1200000, 2500000>>>>, !.corr = c, !.ene = e] : f \in 0..1, c \in {0, 90}, e \in {0, 80}}
Ws == {1100, 1200, 1300, 1600, 2050, 2500, 2550, 4100}
Grids == {s \in UNION {[1..n -> Ws] : n \in 2..MaxN} : \A k \in 2..Len(s) : s[k-1] < s[k]}
Lights == {[k \in 1..Len(g) |-> <<g[k], IF k = j THEN 7 ELSE m>>] : g \in Grids, j \in 1..2, m \in {0, 3}}
MPoint == chan = Nothing /\ \E c \in Chans : \E s \in Lights : Point(c, s)
MNext == MPoint \/ Count
=============================================================================
