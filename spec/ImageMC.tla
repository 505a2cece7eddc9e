------------------------------ MODULE ImageMC ------------------------------
EXTENDS Image
Tiny == {<<<<0, 1>>, <<2, 0>>>>, <<<<1, 1>>, <<1, 1>>>>, <<<<0, 3>>, <<0, 0>>>>, <<<<1, 0>>, <<4, 2>>>>}
Wide == {<<<<0, 0, 0>>, <<1, 3, 1>>, <<0, 1, 2>>>>, <<<<0, 1, 0>>, <<1, 5, 1>>, <<0, 1, 0>>>>}
One == {<<[wl |-> 2000, px |-> p, cx |-> c, cy |-> c]>> : p \in Tiny \cup Wide, c \in {250, 500}}
Two == {<<[wl |-> 2000, px |-> p, cx |-> c, cy |-> 20000], [wl |-> w, px |-> q, cx |-> 40000, cy |-> 20000]>> : p \in Tiny, q \in Tiny, c \in {20000, 40000}, w \in {3000}}
Chan(k, f, x) == {[class |-> k, from |-> f, pix |-> p, fx |-> 20, fy |-> y, lam |-> l, wfe |-> 0] : p \in x, y \in {10, 20}, l \in {2000, 2500}}
MDescribe == chan = Nothing /\ \E k \in {"phot", "spec"} :
    \/ \E c \in Chan(k, "samples", {10000, 12500, 25000, 30000, 60000}) \cup Chan(k, "pixels", {10000}) : \E i \in One : Describe(c, i)
    \/ \E c \in Chan(k, "waves", {60000, 80000}) : \E i \in Two : Describe(c, i)
MLay == \E a \in BOOLEAN : \E b \in BOOLEAN : Lay(a, b)
MNext == MDescribe \/ Choose \/ MLay \/ Slide
=============================================================================
