----------------------------- MODULE SourceTrace -----------------------------
(* Recorded loadings of sources by the real code against Source.
   Scene [models, target]; Load [src, a, b, n, out, which, scale, model, first, last,
   got (points), lum, flux, meta]; after a refused load: the spectrum still carried   *)
EXTENDS Source, Conformance
VARIABLES l, bad, skip
TInit == Init /\ l = 0 /\ bad = <<>> /\ skip = FALSE
E == Log[l + 1]
Here == l + 1
Ev(e) == l < Len(Log) /\ ~skip /\ E.ev = e /\ l' = Here
Note(d) == bad' = bad \o d
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = Here /\ skip' = FALSE
          /\ models' = <<>> /\ tgt' = [has |-> {}] /\ sed' = Nothing /\ UNCHANGED bad
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = Here /\ skip' = TRUE /\ UNCHANGED vars
          /\ Note(Fail(Here, "X.crash", "a source", E.error))
TScene == Ev("Scene") /\ Scene(E.models, [E.target EXCEPT !.has = {E.target.has[k] : k \in 1..Len(E.target.has)}]) /\ UNCHANGED <<bad, skip>>
Num(cl, x, y) == IF Close(x, y, 12) THEN <<>> ELSE Fail(Here, cl, x, y)
Same(cl, x, y) == Diff(Here, cl, x, y)
TLoad == /\ Ev("Load") /\ Outcome(E.src) = "ok" /\ E.out = "ok" /\ E.which \in Spectra(E.src)
         /\ Load(E.src, E.a, E.b, E.n) /\ sed'.which = E.which /\ UNCHANGED skip
         /\ Note(Num("C25.scale", Scale(E.which), E.scale) \o Same("C25.model", Name(E.which), E.model)
                 \o Same("C25.range", <<Min2(E.a, E.b), Max2(E.a, E.b), E.n>>, <<E.first, E.last, E.got>>)
                 \o Num("C25.luminosity", Lum(E.flux), E.lum)
                 \o (IF E.meta = "" THEN <<>> ELSE Same("C25.metadata", Name(E.which), E.meta))
                 \o Same("C25.returned", 1, E.returned))
TRefused == /\ Ev("Load") /\ Outcome(E.src) # "ok" /\ E.out = Outcome(E.src) /\ UNCHANGED <<vars, skip>>
            /\ Note(Same("C25.kept", sed.which, E.which))
TWrong == /\ Ev("Load") /\ ~(E.out = Outcome(E.src) /\ (Outcome(E.src) = "ok" => E.which \in Spectra(E.src)))
          /\ skip' = TRUE /\ UNCHANGED vars
          /\ Note(IF E.out # Outcome(E.src) THEN Fail(Here, "C25.outcome", Outcome(E.src), E.out)
                  ELSE Fail(Here, "C25.spectrum", Spectra(E.src), <<E.which, E.model>>))
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = Here /\ UNCHANGED <<vars, bad, skip>>
TStep == TReset \/ TCrash \/ TScene \/ TLoad \/ TRefused \/ TWrong \/ TSkip
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep /\ l' = Here /\ skip' = TRUE
        /\ Note(Fail(Here, "X.history", "a step of the specification", E)) /\ UNCHANGED vars
TNext == TStep \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
