------------------------------ MODULE SkyTrace ------------------------------
(* Recorded observations of real targets against Sky.
   Observe [frgs, zones]     the payload's foregrounds; the zone each channel sees
   Frg     [name, sig, max]  attenuation of a foreground's signal, by channel
   Seen    [columns, star, aperture, pixel, reported]  the star's, by channel *)
EXTENDS Sky, Conformance
VARIABLES l, bad, skip, zones
TInit == Init /\ l = 0 /\ bad = <<>> /\ skip = FALSE /\ zones = <<>>
E == Log[l + 1]
At == l + 1
Is(e) == l < Len(Log) /\ ~skip /\ E.ev = e /\ l' = At
Note(d) == bad' = bad \o d
Clear == frgs' = <<>> /\ lights' = <<>> /\ through' = [z \in Zones |-> 0] /\ past' = 0
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = At /\ skip' = FALSE /\ Clear /\ UNCHANGED <<bad, zones>>
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = At /\ skip' = TRUE /\ UNCHANGED <<vars, zones>>
          /\ Note(Fail(At, "X.crash", "a result", E.error))
TObserve == Is("Observe") /\ Observe(E.frgs) /\ zones' = E.zones /\ UNCHANGED <<bad, skip>>
TFrg == /\ Is("Frg") /\ PassForeground /\ UNCHANGED <<skip, zones>>
        /\ LET L == lights'[Len(lights')].light
               X == [c \in 1..Len(zones) |-> L[zones[c]]]
           IN Note(Diff(At, "C05.name", Current.name, E.name) \o Diff(At, "C05.signal", <<Current.name, X>>, <<E.name, E.sig>>)
                   \o Diff(At, "C05.maximum", <<Current.name, X>>, <<E.name, E.max>>))
Columns == {lights[i].name : i \in 1..Len(lights)}
X == [c \in 1..Len(zones) |-> Star(zones[c])]
\* reported only if a foreground carries a transmission
Reported == IF \A i \in 1..Len(frgs) : frgs[i].kind = "zodi" THEN {<<>>, X} ELSE {X}
TSeen == /\ Is("Seen") /\ Done /\ UNCHANGED <<vars, skip, zones>>
         /\ Note(Diff(At, "C05.number", <<Len(lights), Len(lights)>>, <<Len(E.columns), Len(E.maxcolumns)>>)
              \o (IF {E.columns[i] : i \in 1..Len(E.columns)} = Columns THEN <<>> ELSE Fail(At, "C05.columns", Columns, E.columns))
              \o (IF {E.maxcolumns[i] : i \in 1..Len(E.maxcolumns)} = Columns THEN <<>> ELSE Fail(At, "C05.columns", Columns, E.maxcolumns))
              \o Diff(At, "C06.signal", X, E.star) \o Diff(At, "C06.aperture", X, E.aperture) \o Diff(At, "C06.pixel", X, E.pixel)
              \o (IF E.reported \in Reported THEN <<>> ELSE Fail(At, "C06.reported", X, E.reported)))
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = At /\ UNCHANGED <<vars, bad, skip, zones>>
TStep == TReset \/ TCrash \/ TObserve \/ TFrg \/ TSeen \/ TSkip
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep /\ l' = At /\ skip' = TRUE
        /\ Note(Fail(At, "X.history", "a step of the specification", E)) /\ UNCHANGED <<vars, zones>>
TNext == TStep \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
