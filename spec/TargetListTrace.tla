-------------------------- MODULE TargetListTrace --------------------------
(* Real target lists read by the real code, against TargetList.
   Header [format, columns]
   Row    [cells, target: <<>> or <<[id, name, star, planet]>>]
   End    [count]
   Searched [query, found]   numbers of the targets found; query letter by letter
   Refused [error]    the list was rejected with a TypeError
   Unsupported [error]                                                       *)
EXTENDS TargetList, Conformance
VARIABLES l, bad, skip
E == Log[l + 1]
At == l + 1
TInit == Blank /\ l = 0 /\ bad = <<>> /\ skip = FALSE
Is(e) == l < Len(Log) /\ ~skip /\ E.ev = e /\ l' = At
Note(d) == bad' = bad \o d
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = At /\ skip' = FALSE
          /\ format' = "" /\ columns' = <<>> /\ targets' = <<>> /\ refused' = 0 /\ UNCHANGED bad
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = At /\ skip' = TRUE /\ UNCHANGED vars
          /\ Note(Fail(At, "X.crash", "a result", E.error))
THeader == Is("Header") /\ Header(E.format, E.columns) /\ UNCHANGED <<bad, skip>>
TRow == /\ Is("Row") /\ ReadRow(E.cells) /\ UNCHANGED skip
        /\ LET t == targets'[Len(targets')] IN
           Note(IF E.target = <<>> THEN Fail(At, "C22.rows", t, "no target")
                ELSE Diff(At, "C22.number", t.id, E.target[1].id) \o Diff(At, "C22.name", t.name, E.target[1].name)
                     \o Diff(At, "C22.star", t.star, E.target[1].star) \o Diff(At, "C22.planet", t.planet, E.target[1].planet))
TEnd == /\ Is("End") /\ Acceptable /\ UNCHANGED <<vars, skip>> /\ Note(Diff(At, "C22.rows", Len(targets), E.count))
TSearched == /\ Is("Searched") /\ Acceptable /\ UNCHANGED <<vars, skip>>
             /\ Note(LET f == Found(E.query) IN Diff(At, "C22.search", [i \in 1..Len(f) |-> f[i].id], E.found))
TRefused == /\ Is("Refused") /\ UNCHANGED skip
            /\ IF Acceptable THEN Note(Fail(At, "C22.refused", "a list", E.error)) /\ UNCHANGED vars
               ELSE Reject /\ Note(Diff(At, "C22.refused", "TypeError", E.error))
TUnsupported == /\ Is("Unsupported") /\ UNCHANGED <<vars, skip>> /\ Note(Diff(At, "C22.format", "OSError", E.error))
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = At /\ UNCHANGED <<vars, bad, skip>>
TStep == TReset \/ TCrash \/ THeader \/ TRow \/ TEnd \/ TSearched \/ TRefused \/ TUnsupported \/ TSkip
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep /\ l' = At /\ skip' = TRUE
        /\ Note(Fail(At, "C22.accepted", "a refusal", E)) /\ UNCHANGED vars
TNext == TStep \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
