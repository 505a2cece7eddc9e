---------------------------- MODULE ChannelGen ----------------------------
(* random channels: ranges, resolving powers, wavelength solutions, apertures,
   and the units they are written in *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT N
VARIABLE c
R(S) == RandomElement(S)
NoWin == [rad |-> 0, ee |-> <<>>, scale |-> 0, spat |-> 0, specpix |-> 0, ene |-> 0, n |-> 0, based |-> 0]
\* ranges a whole number of bins long, and others; short ones too
Exact(z) == R({<<1000000, 1210000, 10>>, <<1000000, 1331000, 10>>, <<1000000, 1250000, 4>>, <<1000000, 1562500, 4>>,
               <<2000000, 3125000, 4>>, <<2000000, 2500000, 4>>, <<1000000, 1500000, 2>>, <<1000000, 2250000, 2>>, <<1000000, 3375000, 2>>,
               <<1000000, 1440000, 5>>, <<1250000, 1800000, 5>>, <<2500000, 3600000, 5>>, <<2000000, 2662000, 10>>})
Los(z) == R({1000000, 1100000, 1250000, 1395000, 1950000, 2000000, 2370000, 3125000, 3900000})
Wid(z) == R({30000, 70000, 150000, 210000, 400000, 605000, 850000, 1300000, 1900000, 2750000, 3500000})
\* knots: wavelengths in 1e-3 micron, from a to b, n pieces
RECURSIVE Pieces(_, _, _, _)
Pieces(n, w, x, s) == IF n = 0 THEN <<>>
                      ELSE LET nw == w + R(600..2400) nx == x + (s * (nw - w) * R(46..66)) \div 100
                           IN <<<<nw, nx>>>> \o Pieces(n - 1, nw, nx, s)
Solution(z) == LET s == R({-1, 1}) w == R(700..1300) x == IF s = 1 THEN R({0, 50, 300}) ELSE R({6000, 7500})
                   n == R({1, 1, 2, 3, 4})
               IN CHOOSE k \in {<<<<w0, x0>>>> \o Pieces(n0, w0, x0, s0) : w0 \in {w}, x0 \in {x}, s0 \in {s}, n0 \in {n}} : TRUE
RECURSIVE Tab(_, _)
Tab(w, hi) == IF w >= hi THEN <<<<w, R(3..40)>>>> ELSE <<<<w, R(3..40)>>>> \o Tab(w + R({5000, 9000, 12500, 20000}), hi)
RECURSIVE EEs(_, _)
EEs(w, hi) == IF w >= hi THEN <<<<w, R(150..400)>>>> ELSE <<<<w, R(150..400)>>>> \o EEs(w + R({700, 1300, 2900}), hi)
SpecWin(z) == CHOOSE w \in {[NoWin EXCEPT !.ee = IF R(1..3) = 1 THEN TLCEval(EEs(R({800, 1000}), R({5000, 8000}))) ELSE <<>>,
                 !.scale = R({0, 0, 3, 10, 20, 45}), !.spat = R({0, 0, 0, 5, 10, 70, 115}), !.specpix = R({0, 0, 0, 0, 10, 25, 300})] : i \in {1}} : TRUE
PhotWin(z) == CHOOSE w \in {IF R(1..2) = 1 THEN [NoWin EXCEPT !.rad = R({50, 120, 300, 924, 1000, 2350}), !.based = R(0..1)]
                            ELSE [NoWin EXCEPT !.ene = R({1, 2, 5, 20, 37, 50, 60, 75, 90, 97, 98, 99, 100}), !.n = R({11, 21, 41}), !.based = 1] : i \in {1}} : TRUE
Units(z) == [lou |-> R({"um", "um", "nm"}), hiu |-> R({"um", "um", "nm"}), xu |-> R({"um", "um", "mm"}), pu |-> R({"um", "um", "mm"}),
             wu |-> R({"um", "um", "nm"}), rev |-> R(0..1), eeu |-> R({"um", "um", "nm"})]
Chan(z) ==
    CHOOSE d \in {
      LET e == R({0, 0, 1})
          m == R({"R", "R", "tab", "tab", "native", "phot"})
          x == TLCEval(Exact(z)) lo == Los(z) hi == lo + Wid(z)
          exact == m = "R" /\ e = 1
          k == TLCEval(Solution(z))
          l == IF exact THEN x[1] ELSE lo
          h == IF exact THEN x[2] ELSE hi
      IN [class |-> IF m = "phot" THEN "phot" ELSE "spec", mode |-> IF m = "phot" THEN "one" ELSE m, lo |-> l, hi |-> h,
          R |-> IF exact THEN x[3] ELSE R({2, 3, 5, 7, 10, 15, 20, 33, 50}),
          tab |-> IF m = "tab" THEN TLCEval(Tab(R({7000, 8500, 10000}), 80000)) ELSE <<>>,
          knots |-> k, pix |-> R({18, 30, 27, 64, 150}), fx |-> R({20, 35, 64, 200, 400}), fy |-> R({20, 30, 55, 180, 400}),
          win |-> IF m = "phot" THEN PhotWin(z) ELSE SpecWin(z), units |-> Units(z), deflt |-> R(0..1)] : i \in {1}} : TRUE
Init == \E i \in 1..N : \E m \in {R(1..3)} : c = [id |-> i, units |-> R(0..6), chans |-> [j \in 1..m |-> Chan(j)]]
Next == UNCHANGED c
Out == PrintT("CASE " \o ToJson(c))
=============================================================================
