------------------------------ MODULE Channel ------------------------------
(* What a channel's description means for its wavelength table and extraction
   windows.  A table is laid bin by bin from the short end of the range; windows
   follow.  Wavelengths are in 1e-6 micron, positions on the detector and pixel
   sizes in tenths of a micron, solution knots <<1e-3 micron, tenths of micron>>.

   desc  class "phot" / "spec", lo, hi, mode "R" / "tab" / "native", R,
         tab   <<1e-4 micron, resolving power>> ..., knots, pix,
         fx, fy (tenths), win (see Windows)
   bins  the bins so far, [l, r, c, w]: edges, centre and width
   wins  the windows so far, as decimals                                      *)
EXTENDS Num, FiniteSets
VARIABLES desc, bins, wins
vars == <<desc, bins, wins>>
Nothing == [class |-> "none"]
Abs(i) == IF i < 0 THEN -i ELSE i
Ceil(a, b) == (a + b - 1) \div b
Last == bins[Len(bins)]
At == IF bins = <<>> THEN desc.lo ELSE Last.r
Slack == 3          \* edges are read rounded

\* s * a * b / c without leaving 32 bits
MulDiv(a, b, c, s) == ((a * b) \div c) * s + (((a * b) % c) * s) \div c

-----------------------------------------------------------------------------
(* the wavelength solution: piecewise linear, its ends extended *)
K == desc.knots
Seg(v, col, scale) == LET up == K[1][col] < K[Len(K)][col]
                          Below(i) == IF up THEN K[i][col] * scale <= v ELSE K[i][col] * scale >= v
                          S == {i \in 2..(Len(K) - 1) : Below(i)}
                      IN IF S = {} THEN 1 ELSE CHOOSE i \in S : \A j \in S : j <= i
\* position [1e-2 micron] of wavelength w [1e-6]
X(w) == LET i == Seg(w \div 100, 1, 10)
        IN K[i][2] * 10 + MulDiv(K[i+1][2] - K[i][2], w \div 100 - K[i][1] * 10, (K[i+1][1] - K[i][1]) * 10, 10)
\* wavelength [1e-5] of position x [1e-2 micron]
W(x) == LET i == Seg(x, 2, 10)
            dx == (K[i+1][2] - K[i][2]) * 10
            num == (K[i+1][1] - K[i][1]) * (IF dx < 0 THEN -1 ELSE 1)
        IN K[i][1] * 100 + MulDiv(num, x - K[i][2] * 10, Abs(dx), 100)
\* distance on the detector [1e-4 micron] between two wavelengths [1e-6]
RECURSIVE Span(_, _, _)
Span(a, b, i) ==
    IF i >= Len(K) THEN 0
    ELSE LET s == IF i = 1 THEN a ELSE K[i][1] * 1000
             e == IF i = Len(K) - 1 THEN b ELSE K[i+1][1] * 1000
             l == IF a > s THEN a ELSE s
             r == IF b < e THEN b ELSE e
         IN (IF r > l THEN MulDiv(Abs(K[i+1][2] - K[i][2]), (r - l) \div 10, (K[i+1][1] - K[i][1]) * 100, 1000) ELSE 0)
            + Span(a, b, i + 1)

-----------------------------------------------------------------------------
(* bins *)
\* width of the next bin at wavelength e, resolving power tabulated [1e-6]
TabWidth(e) == LET t == desc.tab
                   S == {i \in 2..(Len(t) - 1) : t[i][1] * 100 <= e}
                   i == IF S = {} THEN 1 ELSE CHOOSE j \in S : \A k \in S : k <= j
                   den == t[i+1][1] - t[i][1]
                   num == t[i][2] * den + (t[i+1][2] - t[i][2]) * ((e \div 100) - t[i][1])
               IN 100 * (((e \div 100) * den) \div num)
\* native: pixels from the end of the range at the smaller position
Lo2 == LET a == X(desc.lo) b == X(desc.hi) IN IF a < b THEN a ELSE b
Hi2 == LET a == X(desc.lo) b == X(desc.hi) IN IF a < b THEN b ELSE a
Pixels == {Ceil(Hi2 - Lo2 + d, desc.pix * 10) : d \in {-3, 0, 3}}
\* the k-th pixel by increasing wavelength, of n
Pos(k, n) == Lo2 + (IF X(desc.lo) < X(desc.hi) THEN k - 1 ELSE n - k) * desc.pix * 10
PixC(k, n) == W(Pos(k, n)) * 10
PixW(k, n) == 10 * Abs(W(Pos(k, n) + desc.pix * 5) - W(Pos(k, n) - desc.pix * 5))
NativeTol == 500    \* positions are kept to 1e-2 micron

Agree(b) == Abs(b.l + b.r - 2 * b.c) <= 2 * Slack /\ Abs(b.r - b.l - b.w) <= Slack /\ b.l <= b.c /\ b.c <= b.r
Joined(b) == Abs(b.l - At) <= (IF desc.mode = "native" THEN NativeTol ELSE Slack)
\* the resolving power gives the bin from its left edge; when all that is left after it is one piece shorter than half of it, it takes that in
Follows(b) ==
    IF desc.class = "phot" THEN Abs(b.r - desc.hi) <= Slack
    ELSE IF desc.mode = "R" THEN Abs(desc.R * (b.r - b.l) - b.l) <= desc.R * 4 + 4
    ELSE IF desc.mode = "tab" THEN
        LET w == TabWidth(b.l)
            rest == desc.hi - (b.l + w)
            plain == Abs(b.r - b.l - w) <= 160
            merged == Abs(b.r - desc.hi) <= Slack
            next == TabWidth(b.l + w)
        IN IF rest <= 0 THEN plain
           ELSE IF Abs(2 * rest - w) <= 500 \/ Abs(next - rest) <= 500 THEN plain \/ merged
           ELSE IF 2 * rest < w /\ rest < next THEN merged ELSE plain
    ELSE \E n \in Pixels : /\ Len(bins) < n
                           /\ Abs(b.c - PixC(Len(bins) + 1, n)) <= NativeTol
                           /\ Abs(b.w - PixW(Len(bins) + 1, n)) <= NativeTol
Covered == IF desc.mode = "native" THEN Len(bins) \in Pixels ELSE bins # <<>> /\ Last.r >= desc.hi - Slack
MayGrow == IF desc.mode = "native" THEN \E n \in Pixels : Len(bins) < n
           ELSE bins = <<>> \/ Last.r < desc.hi - Slack
\* with a bent solution neighbouring pixels touch only approximately
Straight == desc.mode # "native" \/ Len(desc.knots) = 2
Meets(b) == IF desc.mode # "native" THEN Joined(b)
            ELSE IF bins = <<>> THEN TRUE ELSE b.c > Last.c /\ (IF Straight THEN Joined(b) ELSE TRUE)
NextBin(b) == (MayGrow /\ Agree(b) /\ Meets(b) /\ Follows(b)) = TRUE

-----------------------------------------------------------------------------
(* windows, one per bin:
   spec  win [rad: radius in hundredths (0: the diffraction limit's 1.22), ee: <<1e-3 micron, hundredths>>...,
              scale: tenths (0: none), spat, specpix: pixels in tenths (0: none)]
   phot  win [rad (hundredths) | ene (percent) and n (pixels a side of a flat image), based: 1 for an image in pixels]  *)
Rnd(w) == (w + 500) \div 1000
EE(w) == LET t == desc.win.ee
             S == {i \in 2..(Len(t) - 1) : t[i][1] * 1000 <= w}
             i == IF S = {} THEN 1 ELSE CHOOSE j \in S : \A k \in S : k <= j
         IN t[i][2] * 100 + ((t[i+1][2] - t[i][2]) * 100 * (Rnd(w) - t[i][1])) \div (t[i+1][1] - t[i][1])
Radius(b) == IF desc.win.ee # <<>> THEN Dec(EE(b.c), -4) ELSE Dec(122, -2)
Pix == Dec(desc.pix, -1)
RightOf(i) == IF i < Len(bins) THEN bins[i + 1].l ELSE bins[i].r
Spectral(i) == IF desc.win.specpix > 0 THEN Dec(desc.win.specpix, -1)
               ELSE Div(Dec(Span(bins[i].l, RightOf(i), 1), -4), Pix)
Spatial(i) ==
    IF desc.win.spat > 0 THEN Dec(desc.win.spat, -1)
    ELSE LET b == bins[i]
             plain == Div(Mul(Mul(Dec(2, 0), Radius(b)), Mul(Dec(desc.fy, -1), Dec(Rnd(b.c), -3))), Pix)
         IN IF desc.win.scale > 0 THEN Mul(plain, Dec(desc.win.scale, -1)) ELSE plain
Lam(b) == Dec(Rnd(b.c), -3)
Ellipse(b) == Mul(Div(Mul(Dec(desc.fx, -1), Lam(b)), Pix), Div(Mul(Dec(desc.fy, -1), Lam(b)), Pix))
\* a circle of radius j holds j^2 * 314159 / n^2 hundred-thousandths of a flat image, if it fits
Circle(j) == Mul(Dec(31416, -4), Dec(j * j, 0))
Flat == Mul(Dec(desc.win.ene, -2), Dec(desc.win.n * desc.win.n, 0))
Le(a, b) == Close(a, b, 8) \/ (IF a[2] = b[2] THEN a[1] <= b[1] ELSE a[2] < b[2] \/ a[1] = 0)
PhotSize(size) ==
    IF desc.win.rad > 0
    THEN LET r2 == Mul(Dec(desc.win.rad, -2), Dec(desc.win.rad, -2))
         IN Close(size, IF desc.win.based = 1 THEN r2 ELSE Mul(r2, Ellipse(bins[1])), 5)
    \* the radius holding the energy, read between whole radii
    ELSE LET Sure(x, y) == Le(x, y) /\ ~Close(x, y, 20)
         IN /\ \A j \in 1..(desc.win.n \div 2) : /\ Sure(Flat, Circle(j)) => Le(size, Circle(j))
                                               /\ Sure(Circle(j), Flat) => Le(Circle(j), size)
            /\ size[1] > 0 /\ Le(size, Mul(Dec(18, -1), Dec(desc.win.n * desc.win.n, 0)))
Window(k) == [spectral |-> Spectral(k), spatial |-> Spatial(k), size |-> Mul(Spectral(k), Spatial(k))]

-----------------------------------------------------------------------------
Init == desc = Nothing /\ bins = <<>> /\ wins = <<>>
Describe(d) == desc' = d /\ bins' = <<>> /\ wins' = <<>>
AddBin(b) == desc # Nothing /\ NextBin(b) /\ bins' = Append(bins, b) /\ UNCHANGED <<desc, wins>>
AddWindow == /\ desc # Nothing /\ Covered /\ desc.class = "spec" /\ Len(wins) < Len(bins)
             /\ wins' = Append(wins, Window(Len(wins) + 1)) /\ UNCHANGED <<desc, bins>>

-----------------------------------------------------------------------------
(* what makes a good table *)
Increasing == \A i \in 2..Len(bins) : bins[i].c > bins[i-1].c
Tiling == (desc # Nothing /\ desc.mode # "native") =>
             /\ bins # <<>> => Abs(bins[1].l - desc.lo) <= Slack
             /\ \A i \in 2..Len(bins) : Abs(bins[i].l - bins[i-1].r) <= Slack
NoSuperfluous == (desc # Nothing /\ desc.mode # "native") => \A i \in 1..Len(bins) : bins[i].l < desc.hi
NotTooWide == (desc # Nothing /\ desc.mode \in {"R", "tab"} /\ Covered) =>
                 \A i \in 2..Len(bins) : bins[i].w >= bins[i-1].w - 200 \/ desc.mode = "tab"
OverridesReplace == \A i \in 1..Len(wins) :
                      /\ desc.win.spat > 0 => wins[i].spatial = Dec(desc.win.spat, -1)
                      /\ desc.win.specpix > 0 => wins[i].spectral = Dec(desc.win.specpix, -1)
Widths == (desc # Nothing /\ desc.class = "spec" /\ desc.win.specpix = 0 /\ Covered /\ desc.mode = "native" /\ Straight) =>
             \A i \in 1..Len(wins) : Close(wins[i].spectral, Dec(1, 0), 10)
=============================================================================
