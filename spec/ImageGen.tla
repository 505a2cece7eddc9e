------------------------------ MODULE ImageGen ------------------------------
(* random images, ways of describing them, and channels that look at them *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANT N
VARIABLE c
R(S) == RandomElement(S)
\* light in the middle of the picture, dark around
Spot(r, k, m) == r > m /\ k > m /\ r <= m + 5 /\ k <= m + 5
Picture(m, dense) == [r \in 1..(2 * m + 5) |-> [k \in 1..(2 * m + 5) |-> IF Spot(r, k, m) /\ (dense = 1 \/ R(1..3) = 1 \/ (r = m + 3 /\ k = m + 2)) THEN R(1..90) ELSE 0]]
Waves(z) == R({{1800}, {2600}, {1800, 2600}, {2600, 4500}, {1800, 3100}, {1800, 2600, 3100}, {2600, 3100, 4500}, {1800, 2600, 3100, 4500}})
Img(w, m, x, y) == CHOOSE i \in {[wl |-> w, px |-> TLCEval(Picture(m, R(0..1))), cx |-> x, cy |-> y] : j \in {1}} : TRUE
Imgs(ws, m, x) == LET s == SetToSortSeq(ws, <) IN [i \in 1..Len(s) |-> Img(s[i], m, x, x)]
Lam(z) == R({2000, 2500, 3000, 4000})
Base(k, f, p, x, y, l) == CHOOSE d \in {[class |-> k, from |-> f, pix |-> p, fx |-> x, fy |-> y, lam |-> l,
                             wfe |-> IF k = "spec" THEN R({0, 0, 5, 10, 20}) ELSE 0, form |-> R(0..3)] : j \in {1}} : TRUE
\* pixels of a quarters of a sample
Samples(k) == LET l == TLCEval(Lam(0)) x == TLCEval(R({20, 40})) cx == TLCEval(R({125, 250, 500}))
                  two == TLCEval(R({<<1, 1>>, <<2, 1>>, <<1, 2>>}))
                  a == TLCEval(IF k = "spec" THEN (IF two[2] = 2 THEN R({10, 14}) ELSE IF two[1] = 2 THEN R({5, 6, 7}) ELSE R({5, 6, 7, 9, 10, 11, 13, 14}))
                               ELSE IF two[2] = 2 THEN R({10, 12, 14, 16}) ELSE IF two[1] = 2 THEN R({5, 6, 7, 8}) ELSE R({5, 6, 7, 8, 9, 10, 11, 12, 14, 16}))
              IN [chan |-> Base(k, "samples", (a * x * l * cx) \div 4000, x, (x * two[2]) \div two[1], l), imgs |-> Imgs(TLCEval(Waves(l)), 4, cx)]
Pixels(k) == [chan |-> Base(k, "pixels", R({30000, 180000}), R({20, 35}), R({20, 50}), Lam(0)), imgs |-> Imgs(TLCEval(Waves(Len(k))), 2, 0)]
\* the same light laid out otherwise: turned over, moved
Turned(p, t, fr, fc, mr, mc) == LET n == Len(p) IN [r \in 1..n |-> [k \in 1..n |->
    LET a == (IF fr = 1 THEN n + 1 - r ELSE r) + mr b == (IF fc = 1 THEN n + 1 - k ELSE k) + mc IN
    IF a \in 1..n /\ b \in 1..n THEN (IF t = 1 THEN p[b][a] ELSE p[a][b]) ELSE 0]]
Tabulated(k) == LET p == TLCEval(R({60000, 120000}))
                    S == IF k = "spec" THEN (IF p = 60000 THEN {40000, 50000} ELSE {50000, 80000}) ELSE (IF p = 60000 THEN {20000, 30000, 40000} ELSE {20000, 30000, 40000, 60000})
                    ws == TLCEval(R({<<2000, 3000>>, <<2000, 4000>>, <<2000, 3000, 4000>>, <<2000, 2500, 4500>>}))
                    l == TLCEval(R(CASE ws = <<2000, 3000>> -> {2000, 2250, 2500, 2750, 3000} [] ws = <<2000, 4000>> -> {2000, 2500, 3000, 3500, 4000}
                                     [] ws = <<2000, 3000, 4000>> -> {2250, 2500, 3000, 3250, 3500, 4000} [] OTHER -> {2250, 2500, 3000, 3500, 4000}))
                    same == TLCEval(R(0..1)) x == TLCEval(R(S)) y == TLCEval(R(S)) pic == TLCEval(Picture(5, R(0..1)))
                IN [chan |-> Base(k, "waves", p, 20, 20, l),
                    imgs |-> TLCEval([i \in 1..Len(ws) |-> TLCEval([wl |-> ws[i], px |-> Turned(pic, R(0..1), R(0..1), R(0..1), R(-2..2), R(-2..2)),
                                                                   cx |-> IF same = 1 THEN x ELSE R(S), cy |-> IF same = 1 THEN y ELSE R(S)])])]
Bare(k) == LET l == TLCEval(Lam(0)) x == TLCEval(R({20, 40})) e == TLCEval(R({1, 2, 3, 4, 6, 8}))
               y == TLCEval(R({x} \cup (IF e \in {2, 4, 6, 8} THEN {2 * x} ELSE {}) \cup (IF e <= 4 THEN {x \div 2} ELSE {})))
           IN [chan |-> Base(k, "none", (e * x * l) \div 4, x, y, l), imgs |-> <<>>]
One(j) == LET k == TLCEval(R({"phot", "spec"})) q == R(1..8) IN
          IF q <= 3 THEN Samples(k) ELSE IF q = 4 THEN Pixels(k) ELSE IF q <= 7 THEN Tabulated(k) ELSE Bare(k)
Init == \E i \in 1..N : \E n \in {R(1..3)} : c = [id |-> i, units |-> R(0..6), looks |-> TLCEval([j \in 1..n |-> TLCEval(One(j))])]
Next == UNCHANGED c
Out == PrintT("CASE " \o ToJson(c))
=============================================================================
