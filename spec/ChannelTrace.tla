---------------------------- MODULE ChannelTrace ----------------------------
(* Built channels of the real code against Channel.
   Describe [desc]; Bin [bin]; Table [n: rows]; Window [spectral, spatial, size]  *)
EXTENDS Channel, Conformance
VARIABLES l, bad, skip
TInit == Init /\ l = 0 /\ bad = <<>> /\ skip = FALSE
E == Log[l + 1]
Here == l + 1
Ev(e) == l < Len(Log) /\ ~skip /\ E.ev = e /\ l' = Here
Note(d) == bad' = bad \o d
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = Here /\ skip' = FALSE
          /\ desc' = Nothing /\ bins' = <<>> /\ wins' = <<>> /\ UNCHANGED bad
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = Here /\ skip' = TRUE /\ UNCHANGED vars
          /\ Note(Fail(Here, "X.crash", "a channel", E.error))
TDescribe == Ev("Describe") /\ Describe(E.desc) /\ UNCHANGED <<bad, skip>>
TBin == /\ Ev("Bin")
        /\ IF NextBin(E.bin) THEN AddBin(E.bin) /\ UNCHANGED <<bad, skip>>
           ELSE /\ skip' = TRUE /\ UNCHANGED vars
                /\ Note(Fail(Here, IF ~MayGrow THEN "C23.superfluous" ELSE IF ~Agree(E.bin) THEN "C23.agree"
                                   ELSE IF ~Meets(E.bin) THEN (IF bins = <<>> THEN "C23.start" ELSE "C23.contiguous") ELSE "C23.width",
                             <<"after", IF bins = <<>> THEN desc.lo ELSE Last.r, "of", desc.lo, desc.hi, desc.mode>>, E.bin))
TTable == /\ Ev("Table") /\ UNCHANGED <<vars, skip>>
          /\ Note((IF (Covered /\ E.n = Len(bins)) = TRUE THEN <<>>
                   ELSE Fail(Here, "C23.end", <<"reach", desc.hi>>, <<E.n, IF bins = <<>> THEN 0 ELSE Last.r>>))
                  \o Diff(Here, "C23.names", 1, E.named))
Within(a, b) == Close(a, b, 6)
TWindow == /\ Ev("Window") /\ desc.class = "spec" /\ Covered
           /\ LET w == Window(Len(wins) + 1)
                  one(cl, x, y) == IF Within(x, y) THEN <<>> ELSE Fail(Here, cl, x, y)
              IN /\ AddWindow /\ UNCHANGED skip
                 /\ Note(one("C27.spectral", w.spectral, E.spectral) \o one("C27.spatial", w.spatial, E.spatial)
                         \o one("C27.size", w.size, E.size))
TPhot == /\ Ev("Window") /\ desc.class = "phot" /\ Covered /\ UNCHANGED <<vars, skip>>
         /\ Note(IF PhotSize(E.size) THEN <<>>
                 ELSE Fail(Here, IF desc.win.rad > 0 THEN "C27.radius" ELSE "C27.energy",
                           IF desc.win.rad > 0 THEN Ellipse(bins[1]) ELSE Flat, E.size))
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash", "Describe"} /\ l' = Here /\ UNCHANGED <<vars, bad, skip>>
TAgain == l < Len(Log) /\ skip /\ E.ev = "Describe" /\ l' = Here /\ Describe(E.desc) /\ skip' = FALSE /\ UNCHANGED bad
TStep == TReset \/ TCrash \/ TDescribe \/ TBin \/ TTable \/ TWindow \/ TPhot \/ TSkip \/ TAgain
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep /\ l' = Here /\ skip' = TRUE
        /\ Note(Fail(Here, "X.history", "a step of the specification", E)) /\ UNCHANGED vars
TNext == TStep \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
