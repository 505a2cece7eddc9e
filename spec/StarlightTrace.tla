--------------------------- MODULE StarlightTrace ---------------------------
(* Recorded star signals of the real code against Starlight.
   Point [chan, star, flat]; (Count steps are the specification's own);
   Seen [rows: [flux, signal, aperture, pixel]]                              *)
EXTENDS Starlight, Conformance
VARIABLES l, bad, skip
TInit == Init /\ l = 0 /\ bad = <<>> /\ skip = FALSE
E == Log[l + 1]
Here == l + 1
Ev(e) == l < Len(Log) /\ ~skip /\ E.ev = e
Note(d) == bad' = bad \o d
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = Here /\ skip' = FALSE /\ i' = 0
          /\ chan' = Nothing /\ star' = <<>> /\ low' = <<>> /\ up' = <<>> /\ flo' = <<>> /\ fup' = <<>> /\ UNCHANGED bad
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = Here /\ skip' = TRUE /\ UNCHANGED vars
          /\ Note(Fail(Here, "X.crash", "an observation", E.error))
TPoint == Ev("Point") /\ l' = Here /\ Point(E.chan, E.star) /\ UNCHANGED <<bad, skip>>
TCount == Ev("Seen") /\ ~Counted /\ Count /\ UNCHANGED <<l, bad, skip>>
Tol == 6
Between(x, a, b) == IF Close(x, a, Tol) \/ Close(x, b, Tol) THEN TRUE
                    ELSE IF x[1] < 0 \/ b[1] = 0 THEN FALSE
                    ELSE /\ (a[1] = 0 \/ a[2] < x[2] \/ (a[2] = x[2] /\ a[1] <= x[1]))
                         /\ (x[1] = 0 \/ x[2] < b[2] \/ (x[2] = b[2] /\ x[1] <= b[1]))
Row(b) == E.rows[b]
RowBad(b) ==
    LET s == Row(b).signal
    IN (IF Between(s, Signal(low[b]), Signal(up[b])) THEN <<>>
        ELSE Fail(Here, "C26.signal", <<"bin", b, Signal(low[b]), Signal(up[b])>>, s))
       \o (IF Between(Row(b).flux, Flux(flo[b]), Flux(fup[b])) THEN <<>>
           ELSE Fail(Here, "C26.flux", <<"bin", b, Flux(flo[b]), Flux(fup[b])>>, Row(b).flux))
       \o (IF Close(Row(b).aperture, Mul(s, Aperture), Tol) THEN <<>>
           ELSE Fail(Here, "C26.aperture", <<"bin", b, Mul(s, Aperture)>>, Row(b).aperture))
       \o (IF chan.class = "phot" THEN
              (IF Close(Row(b).pixel, Mul(s, chan.peak), Tol) THEN <<>> ELSE Fail(Here, "C26.pixel", Mul(s, chan.peak), Row(b).pixel))
           ELSE IF E.flat = 1 THEN
              LET x == Mul(Mul(Mul(Div(Dec(100 * Response(3000), 0), Dec(256, 0)), Dec(chan.atel, -2)), chan.pixw), chan.peak)
              IN IF Close(Row(b).pixel, x, Tol) THEN <<>> ELSE Fail(Here, "C26.pixel", <<"bin", b, x>>, Row(b).pixel)
           ELSE <<>>)
RECURSIVE All(_)
All(b) == IF b = 0 THEN <<>> ELSE All(b - 1) \o RowBad(b)
TSeen == /\ Ev("Seen") /\ Counted /\ l' = Here /\ UNCHANGED <<vars, skip>>
         /\ Note(IF Len(E.rows) = Len(chan.bins) THEN All(Len(chan.bins)) ELSE Fail(Here, "C26.rows", Len(chan.bins), Len(E.rows)))
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = Here /\ UNCHANGED <<vars, bad, skip>>
TStep == TReset \/ TCrash \/ TPoint \/ TCount \/ TSeen \/ TSkip
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep /\ l' = Here /\ skip' = TRUE
        /\ Note(Fail(Here, "X.history", "a step of the specification", E)) /\ UNCHANGED vars
TNext == TStep \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
