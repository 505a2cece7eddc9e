------------------------------ MODULE ChannelMC ------------------------------
EXTENDS Channel
NoWin == [rad |-> 0, ee |-> <<>>, scale |-> 0, spat |-> 0, specpix |-> 0, ene |-> 0, n |-> 0, based |-> 0]
Wins == {NoWin, [NoWin EXCEPT !.scale = 5], [NoWin EXCEPT !.spat = 70, !.scale = 20], [NoWin EXCEPT !.specpix = 30],
         [NoWin EXCEPT !.ee = <<<<1000, 150>>, <<2000, 300>>>>]}
Knots == {<<<<500, 0>>, <<4500, 4000>>>>, <<<<500, 6000>>, <<4500, 0>>>>, <<<<500, 0>>, <<1500, 2000>>, <<4500, 5000>>>>,
          <<<<500, 6000>>, <<2000, 2500>>, <<4500, 0>>>>}
Base == [class |-> "spec", lo |-> 1000000, hi |-> 2000000, mode |-> "R", R |-> 2, tab |-> <<>>, knots |-> <<<<500, 0>>, <<4500, 4000>>>>,
         pix |-> 700, fx |-> 20, fy |-> 30, win |-> NoWin]
Tabs == {<<<<5000, 2>>, <<25000, 6>>>>, <<<<5000, 5>>, <<15000, 5>>, <<35000, 3>>>>}
Ranges == {<<1000000, 1500000>>, <<1000000, 2250000>>, <<1000000, 2200000>>, <<1200000, 1300000>>, <<1500000, 3000000>>}
Descs == {[Base EXCEPT !.lo = r[1], !.hi = r[2], !.R = q, !.knots = k, !.win = w] : r \in Ranges, q \in {2, 5}, k \in Knots, w \in Wins}
         \cup {[Base EXCEPT !.lo = r[1], !.hi = r[2], !.mode = "tab", !.tab = t, !.win = w] : r \in Ranges, t \in Tabs, w \in Wins}
         \cup {[Base EXCEPT !.lo = r[1], !.hi = r[2], !.mode = "native", !.knots = k, !.win = w] : r \in Ranges, k \in Knots, w \in Wins}
         \cup {[Base EXCEPT !.class = "phot", !.mode = "one", !.lo = r[1], !.hi = r[2]] : r \in Ranges}
B(l, r) == [l |-> l, r |-> r, c |-> (l + r) \div 2, w |-> r - l]
Cands == IF desc.class = "phot" THEN {B(desc.lo, desc.hi)}
         ELSE IF desc.mode = "R" THEN {B(At, At + (At \div desc.R))}
         ELSE IF desc.mode = "tab" THEN {B(At, At + TabWidth(At)), B(At, desc.hi)}
         ELSE {LET c == PixC(Len(bins) + 1, n) w == PixW(Len(bins) + 1, n) IN [l |-> c - w \div 2, r |-> c - w \div 2 + w, c |-> c, w |-> w]
                 : n \in {m \in Pixels : Len(bins) < m}}
MDescribe == desc = Nothing /\ \E d \in Descs : Describe(d)
MBin == desc # Nothing /\ wins = <<>> /\ \E b \in Cands : AddBin(b)
MNext == MDescribe \/ MBin \/ AddWindow
\* every table can be completed: no description is stuck before its range is covered
Alive == (desc # Nothing /\ ~Covered) => \E b \in Cands : NextBin(b)
=============================================================================
