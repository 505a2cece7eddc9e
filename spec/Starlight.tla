----------------------------- MODULE Starlight -----------------------------
(* A star's photons counted by one channel, sample by sample of its spectrum.

   chan  class "phot" / "spec"; lo, hi [1e-6 micron]; force (0/1): edges forced;
         bins: <<left, right>> ... [1e-6]; t, q: exponents of two (99: opaque) of the
         transmission and the quantum efficiency in the zones between EDGE;
         atel [1e-2 m2], corr, ene [1e-2, 0: absent], peak: share of the image in its
         brightest pixel (column of pixels), pixw: wavelengths a pixel spans
   star  <<w, n>> ...: wavelength [1e-3 micron], photons /s/m2/micron
   i     samples counted so far; lo and up: photons surely and possibly in each bin,
         flo, fup: their energy, in 1/200000 of a photon of 1e-3 micron                                                 *)
EXTENDS Num
VARIABLES chan, star, i, low, up, flo, fup
vars == <<chan, star, i, low, up, flo, fup>>
Nothing == [class |-> "none"]
EDGE == <<1000, 2000, 4000, 8000>>
Zone(w) == IF w < EDGE[1] \/ w > EDGE[4] THEN 0 ELSE IF w < EDGE[2] THEN 1 ELSE IF w < EDGE[3] THEN 2 ELSE 3
Near == 15      \* bin edges are known to 1e-6 micron: light closer may fall on either side
RECURSIVE Half(_, _)
Half(v, k) == IF k <= 0 THEN v ELSE Half(v, k - 1) \div 2
\* part of 256 that passes
Response(w) == LET z == Zone(w)
               IN IF z = 0 THEN 0 ELSE IF chan.t[z] = 99 \/ chan.q[z] = 99 THEN 0 ELSE Half(256, chan.t[z] + chan.q[z])
Outside(w) == w * 1000 < chan.lo \/ w * 1000 > chan.hi
Shut(w) == chan.force = 1 /\ Outside(w)
\* width of the k-th sample, in half thousandths of a micron
Weight(k) == LET n == Len(star) a == IF k = 1 THEN k ELSE k - 1 b == IF k = n THEN k ELSE k + 1
             IN star[b][1] - star[a][1]
In(k, b, m) == LET w == star[k][1] * 1000
               IN IF chan.class = "phot" THEN TRUE ELSE chan.bins[b][1] - m <= w /\ w < chan.bins[b][2] + m
Photons(k) == star[k][2] * Weight(k) * (IF Shut(star[k][1]) THEN 0 ELSE Response(star[k][1]))
\* the star's own flux: no response, but cut when edges are forced
Energy(k) == IF Shut(star[k][1]) THEN 0
             ELSE LET p == star[k][2] * Weight(k) w == star[k][1] IN (p \div w) * 200000 + ((p % w) * 200000) \div w
Rows == 1..Len(chan.bins)

Init == chan = Nothing /\ star = <<>> /\ i = 0 /\ low = <<>> /\ up = <<>> /\ flo = <<>> /\ fup = <<>>
Point(c, s) == /\ chan' = c /\ star' = s /\ i' = 0
               /\ low' = [b \in 1..Len(c.bins) |-> 0] /\ up' = [b \in 1..Len(c.bins) |-> 0]
               /\ flo' = [b \in 1..Len(c.bins) |-> 0] /\ fup' = [b \in 1..Len(c.bins) |-> 0]
Count == /\ chan # Nothing /\ i < Len(star)
         /\ i' = i + 1
         /\ low' = [b \in Rows |-> low[b] + (IF In(i + 1, b, -Near) THEN Photons(i + 1) ELSE 0)]
         /\ up' = [b \in Rows |-> up[b] + (IF In(i + 1, b, Near) THEN Photons(i + 1) ELSE 0)]
         /\ flo' = [b \in Rows |-> IF In(i + 1, b, -Near) THEN flo[b] + Energy(i + 1) ELSE flo[b]]
         /\ fup' = [b \in Rows |-> IF In(i + 1, b, Near) THEN fup[b] + Energy(i + 1) ELSE fup[b]]
         /\ UNCHANGED <<chan, star>>
Counted == chan # Nothing /\ i = Len(star)

\* counts per second for photons counted in 256ths of half thousandths of a micron
Signal(p) == Mul(Div(Mul(Dec(p, 0), Dec(5, -4)), Dec(256, 0)), Dec(chan.atel, -2))
\* energy per area: hc / micron = 1.98645e-19 J, wavelengths in 1e-3 micron
Flux(f) == Mul(Mul(Div(Dec(f, 0), Dec(2, 5)), Dec(5, -4)), Dec(198645, -21))
Aperture == IF chan.class = "spec" THEN Dec(1, 0)
            ELSE IF chan.corr > 0 THEN Dec(chan.corr, -2)
            ELSE IF chan.ene > 0 THEN Dec(chan.ene, -2) ELSE Dec(1, 0)

-----------------------------------------------------------------------------
\* nothing is counted twice, and nothing that does not exist
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
RECURSIVE Sent(_)
Sent(n) == IF n = 0 THEN 0 ELSE Photons(n) + Sent(n - 1)
Once == chan # Nothing => Sum(low, Len(low)) <= Sent(i) /\ \A b \in Rows : low[b] <= up[b]
AllOfIt == (Counted /\ chan.class = "phot") => low[1] = Sent(i)
ForcedDark == (Counted /\ chan.force = 1) =>
                 \A b \in Rows : (\A k \in 1..Len(star) : Outside(star[k][1])) => up[b] = 0
\* light of the range of the bins is never lost
Kept == (Counted /\ chan.class = "spec" /\ chan.force = 0
         /\ \A k \in 1..Len(star) : star[k][1] * 1000 >= chan.bins[1][1] /\ star[k][1] * 1000 < chan.bins[Len(chan.bins)][2])
        => Sum(up, Len(up)) >= Sent(i)
=============================================================================
