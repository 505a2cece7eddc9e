----------------------------- MODULE ImageTrace -----------------------------
(* Recorded brightest pixels of the real code against Image.
   Describe [chan, imgs]; (Choose, Lay and Slide steps are the specification's own,
   every way of laying pixels is followed);
   Seen [shares: the shares of the star's signal in the brightest pixel]
   The share seen has to be one of those found by some way of laying.          *)
EXTENDS Image, Conformance
VARIABLES l, bad, skip, ways
TInit == Init /\ l = 0 /\ bad = <<>> /\ skip = FALSE /\ ways = {}
E == Log[l + 1]
Here == l + 1
Ev(e) == l < Len(Log) /\ ~skip /\ E.ev = e
Note(d) == bad' = bad \o d
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = Here /\ skip' = FALSE /\ ways' = {}
          /\ chan' = Nothing /\ imgs' = <<>> /\ img' = Blank /\ lay' = <<>> /\ at' = End /\ best' = 0 /\ UNCHANGED bad
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = Here /\ skip' = TRUE /\ UNCHANGED <<vars, ways>>
          /\ Note(Fail(Here, "X.crash", "an observation", E.error))
TDescribe == Ev("Describe") /\ l' = Here /\ Describe(E.chan, E.imgs) /\ ways' = {} /\ UNCHANGED <<bad, skip>>
Pending == Ev("Seen") /\ chan.from # "none"
TChoose == Pending /\ Choose /\ UNCHANGED <<l, bad, skip, ways>>
\* the ways of laying pixels, one after another
Ways == {<<a, b>> : a \in Flips(img.kx), b \in Flips(img.ky)}
Tried == {w[1] : w \in ways}
TLay == /\ Pending /\ img # Blank /\ Ways \ Tried # {}
        /\ LET w == CHOOSE w \in Ways \ Tried : TRUE IN Lay(w[1], w[2])
        /\ UNCHANGED <<l, bad, skip, ways>>
TSlide == Pending /\ Slide /\ UNCHANGED <<l, bad, skip, ways>>
TAgain == /\ Pending /\ Found /\ ways' = ways \cup {<<lay, best>>} /\ lay' = <<>>
          /\ UNCHANGED <<chan, imgs, img, at, best, l, bad, skip>>
\* best is in 40000ths of units of which the image has Total: in thousandths of thousandths
Share(b) == Mul(Div(Dec(b, 0), Dec(Whole, 0)), Strehl)
Tol == IF chan.class = "phot" THEN 8 ELSE 22
Shares == {Share(w[2]) : w \in ways}
\* a diffraction limited image may be cut a few f-numbers times wavelength away
AiryOk(x) == LET a == Mul(Limited, Strehl) b == Mul(a, Dec(1055, -3)) IN
             Close(x, a, Tol) \/ Close(x, b, Tol)
             \/ (x[1] >= 0 /\ Ge(x, a) /\ Ge(b, x))
TSeen == /\ Ev("Seen") /\ UNCHANGED <<vars, skip, ways>> /\ l' = Here
         /\ IF chan.from = "none" THEN Note(IF AiryOk(E.share) THEN <<>> ELSE Fail(Here, "C32.airy", Mul(Limited, Strehl), E.share))
            ELSE /\ img # Blank /\ Ways = Tried
                 /\ Note(IF \E s \in Shares : Close(E.share, s, Tol) THEN <<>> ELSE Fail(Here, "C32." \o chan.from, Shares, E.share))
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = Here /\ UNCHANGED <<vars, bad, skip, ways>>
TStep == TReset \/ TCrash \/ TDescribe \/ TChoose \/ TLay \/ TSlide \/ TAgain \/ TSeen \/ TSkip
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep /\ l' = Here /\ skip' = TRUE
        /\ Note(Fail(Here, "X.history", "a step of the specification", E)) /\ UNCHANGED <<vars, ways>>
TNext == TStep \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
