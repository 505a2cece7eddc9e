-------------------------------- MODULE Image --------------------------------
(* The image of a star on a detector: which image a channel uses, and the light
   its brightest pixel gets.

   chan   [class "phot"/"spec", from "pixels"/"samples"/"waves"/"none": images in
          pixels, sampled in units of F times wavelength, tabulated by wavelength
          with their own sampling, or none; pix [1e-4 micron], fx, fy [0.1],
          lam [1e-3 micron], wfe [percent of the wavelength]]
   imgs   the images there are: [wl [1e-3 micron], px: rows of light, cx: sample
          width (samples: 1e-3 of F wavelength, both ways; waves: 1e-4 micron), cy]
   img    the image in use: [px, kx, ky: samples a pixel spans, hundredths]
   lay    where whole pixels can be laid: <<fx, fy>>, see Parts
   at     the place next looked at; best: the most light found in a pixel, in
          40000ths; once all places were looked at, at = End
   A pixel is laid on the samples with its middle on a sample or on the border of
   two, whichever lets it cover as many whole ones as it can; samples it covers in
   part give that part of their light.                                          *)
EXTENDS Num, FiniteSets
VARIABLES chan, imgs, img, lay, at, best
vars == <<chan, imgs, img, lay, at, best>>
Nothing == [class |-> "none"]
Blank == [px |-> <<>>, kx |-> 0, ky |-> 0]
End == <<1000, 1000>>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
Total(px) == SumS([i \in 1..Len(px) |-> SumS(px[i])])
RowsOf == Len(img.px)
Cols == Len(img.px[1])

\* -- the image in use ---------------------------------------------------------------
Span(n, d) == (200 * n + d) \div (2 * d)
\* of several, the one nearest in wavelength
Nearest == CHOOSE i \in 1..Len(imgs) : \A j \in 1..Len(imgs) : Abs(imgs[i].wl - chan.lam) <= Abs(imgs[j].wl - chan.lam)
\* between the two next to the wavelength, in parts of 1000
Below == CHOOSE i \in 1..Len(imgs) : imgs[i].wl <= chan.lam /\ \A j \in 1..Len(imgs) : imgs[j].wl <= chan.lam => imgs[j].wl <= imgs[i].wl
Above == CHOOSE i \in 1..Len(imgs) : imgs[i].wl >= chan.lam /\ \A j \in 1..Len(imgs) : imgs[j].wl >= chan.lam => imgs[j].wl >= imgs[i].wl
Part(a, b) == IF a = b THEN 0 ELSE (4 * (chan.lam - imgs[a].wl)) \div (imgs[b].wl - imgs[a].wl)
Mix(x, y, p) == (4 - p) * x + p * y
Used ==
    CASE chan.from = "pixels" -> [px |-> imgs[Nearest].px, kx |-> 100, ky |-> 100]
      [] chan.from = "samples" -> LET i == imgs[Nearest] IN
            [px |-> i.px, kx |-> Span(chan.pix, (chan.fx * chan.lam * i.cx) \div 1000), ky |-> Span(chan.pix, (chan.fy * chan.lam * i.cy) \div 1000)]
      [] chan.from = "waves" -> LET a == Below b == Above p == Part(a, b) A == imgs[a] B == imgs[b] IN
            [px |-> [r \in 1..Len(A.px) |-> [c \in 1..Len(A.px[r]) |-> Mix(A.px[r][c], B.px[r][c], p)]],
             kx |-> Span(4 * chan.pix, Mix(A.cx, B.cx, p)), ky |-> Span(4 * chan.pix, Mix(A.cy, B.cy, p))]
      [] OTHER -> Blank

\* -- laying pixels --------------------------------------------------------------------
\* weights [1/200] along one axis; a whole number of samples may be seen as one fewer and two halves
Parts(k, flip) == LET n == IF flip THEN k \div 100 - 1 ELSE k \div 100 f == k - 100 * n IN [i \in 1..(n + 2) |-> IF i \in {1, n + 2} THEN f ELSE 200]
Flips(k) == IF chan.from # "pixels" /\ k > 100 /\ k % 100 = 0 THEN {FALSE, TRUE} ELSE {FALSE}
WX == Parts(img.kx, lay[1])
WY == Parts(img.ky, lay[2])
Light(r, c) == IF r \in 1..RowsOf /\ c \in 1..Cols THEN img.px[r][c] ELSE 0
RECURSIVE Across(_, _, _), Down(_, _, _)
Across(r, c, n) == IF n = 0 THEN 0 ELSE Across(r, c, n - 1) + WX[n] * Light(r, c + n - 1)
Down(r, c, n) == IF n = 0 THEN 0 ELSE Down(r, c, n - 1) + WY[n] * Across(r + n - 1, c, Len(WX))
\* a whole column of pixels
RECURSIVE Column(_, _)
Column(c, n) == IF n = 0 THEN 0 ELSE Column(c, n - 1) + 200 * Across(n, c, Len(WX))
First == <<IF chan.class = "spec" THEN 1 ELSE 2 - Len(WY), 2 - Len(WX)>>
Gets(p) == IF chan.class = "spec" THEN Column(p[2], RowsOf) ELSE Down(p[1], p[2], Len(WY))
After(p) == IF p[2] < Cols THEN <<p[1], p[2] + 1>>
            ELSE IF chan.class = "phot" /\ p[1] < RowsOf THEN <<p[1] + 1, First[2]>> ELSE End

Init == chan = Nothing /\ imgs = <<>> /\ img = Blank /\ lay = <<>> /\ at = End /\ best = 0
Describe(c, is) == chan' = c /\ imgs' = is /\ img' = Blank /\ lay' = <<>> /\ at' = End /\ best' = 0
Choose == /\ chan # Nothing /\ chan.from # "none" /\ img = Blank /\ img' = Used
          /\ UNCHANGED <<chan, imgs, lay, at, best>>
Lay(a, b) == /\ img # Blank /\ lay = <<>> /\ a \in Flips(img.kx) /\ b \in Flips(img.ky)
             /\ lay' = <<a, b>> /\ best' = 0
             /\ at' = <<IF chan.class = "spec" THEN 1 ELSE 2 - Len(Parts(img.ky, b)), 2 - Len(Parts(img.kx, a))>>
             /\ UNCHANGED <<chan, imgs, img>>
Slide == /\ lay # <<>> /\ at # End /\ at' = After(at)
         /\ best' = (IF Gets(at) > best THEN Gets(at) ELSE best)
         /\ UNCHANGED <<chan, imgs, img, lay>>
Found == lay # <<>> /\ at = End
\* for two images at a time they count four times
Whole == 40000 * Total(img.px)

\* -- without an image: a diffraction limited one ---------------------------------------
\* light [1e-4] of an Airy pattern on a rectangle of a by b (quarters of F wavelength) in its middle,
\* and on a strip
Size == <<1, 2, 3, 4, 6, 8>>
Airy == <<<<478, 921, 1299, 1595, 1935, 2035>>, <<921, 1773, 2500, 3067, 3718, 3905>>, <<1299, 2500, 3522, 4318, 5225, 5480>>,
          <<1595, 3067, 4318, 5289, 6384, 6685>>, <<1935, 3718, 5225, 6384, 7667, 8001>>, <<2035, 3905, 5480, 6685, 8001, 8338>>>>
Strip == <<2089, 4012, 5637, 6890, 8304, 8745>>
Quarters(f) == (4 * chan.pix) \div (f * chan.lam)
Index(e) == CHOOSE i \in 1..6 : Size[i] = e
Limited == IF chan.class = "phot" THEN Dec(Airy[Index(Quarters(chan.fx))][Index(Quarters(chan.fy))], -4)
           ELSE Dec(Strip[Index(Quarters(chan.fx))], -4)
\* -- a wavefront error takes light out of a spectrometer's image
Strehl == CASE chan.class = "phot" \/ chan.wfe = 0 -> Dec(1, 0) [] chan.wfe = 5 -> Dec(9060, -4) [] chan.wfe = 10 -> Dec(6738, -4)
            [] chan.wfe = 20 -> Dec(2062, -4) [] OTHER -> Dec(0, 0)
-----------------------------------------------------------------------------
\* a pixel never gets more than the image has, and, when not smaller than a
\* sample, never less than the brightest sample
NotMore == Found => best <= Whole
NotLess == (Found /\ img.kx >= 100 /\ img.ky >= 100) => \A r \in 1..RowsOf : \A c \in 1..Cols : best >= 40000 * img.px[r][c]
\* a pixel as large as the image gets all of it
AllOf == (Found /\ img.kx >= 100 * (Cols + 1) /\ img.ky >= 100 * (RowsOf + 1)) => best = Whole
\* the kind of picture looked at is one of those described
Near == (img # Blank /\ chan.from \in {"pixels", "samples"}) => \E i \in 1..Len(imgs) : img.px = imgs[i].px
        /\ \A j \in 1..Len(imgs) : Abs(imgs[i].wl - chan.lam) <= Abs(imgs[j].wl - chan.lam)
=============================================================================
