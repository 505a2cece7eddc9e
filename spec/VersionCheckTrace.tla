-------------------------- MODULE VersionCheckTrace --------------------------
(* Recorded version checks against VersionCheck.
     Check [reach, answer, lines, mine, force]       what is out there, and what is installed;
          lines: <<[k, v, n]>>, n tells lines apart
     Checked [end, told, named, asked, home, same]   what became of it: "ok", "refused", "failed";
          told: lines of the changelog in the warnings; named: versions named besides them;
          asked: whose changelogs were asked for, home: whose it should be;
          same: 1 if sockets of others are as patient as before                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Conformance
VARIABLES net, lines, mine, force, phase, newest, told, l, bad, skip
C == INSTANCE VersionCheck
vars == <<net, lines, mine, force, phase, newest, told>>
TInit == C!Init /\ l = 0 /\ bad = <<>> /\ skip = FALSE
E == Log[l + 1]
Here == l + 1
Ev(e) == l < Len(Log) /\ ~skip /\ E.ev = e
Note(d) == bad' = bad \o d
SetOf(q) == {q[i] : i \in 1..Len(q)}
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = Here /\ skip' = FALSE /\ UNCHANGED bad
          /\ net' = [reach |-> 0, answer |-> "none"] /\ lines' = <<>> /\ mine' = "" /\ force' = 0 /\ phase' = "quiet" /\ newest' = "" /\ told' = <<>>
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = Here /\ skip' = TRUE /\ UNCHANGED vars
          /\ Note(Fail(Here, "X.crash", "a version check", E.error))
TCheck == Ev("Check") /\ l' = Here /\ C!Check([reach |-> E.reach, answer |-> E.answer], E.lines, E.mine, E.force) /\ UNCHANGED <<bad, skip>>
TLook == Ev("Checked") /\ C!Step /\ UNCHANGED <<l, bad, skip>>
End == IF phase = "refused" THEN "refused" ELSE "ok"
Ids(q) == [i \in 1..Len(q) |-> q[i].n]
Told == IF phase = "quiet" /\ E.told = <<>> /\ E.loud = 0 THEN <<>>
        ELSE IF phase = "quiet" THEN Fail(Here, "C35.quiet", "nothing to tell", <<E.told, E.named, E.loud>>)
        ELSE Diff(Here, "C35.changes", Ids(told), E.told) \o Diff(Here, "C35.versions", {newest, mine}, SetOf(E.named))
Asked == IF net.reach = 1 THEN (IF E.asked = <<>> THEN Fail(Here, "C35.asked", E.home, "nothing") ELSE Diff(Here, "C35.asked", {E.home}, SetOf(E.asked)))
         ELSE Diff(Here, "C35.asked", <<>>, E.asked)
TChecked == /\ Ev("Checked") /\ phase \in C!Ends /\ l' = Here /\ UNCHANGED <<vars, skip>>
            /\ Note((IF E.end # End THEN Fail(Here, "C35.end", End, E.end) ELSE Told) \o Asked \o Diff(Here, "C35.sockets", 1, E.same))
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = Here /\ UNCHANGED <<vars, bad, skip>>
TStep == TReset \/ TCrash \/ TCheck \/ TLook \/ TChecked \/ TSkip
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep /\ l' = Here /\ skip' = TRUE
        /\ Note(Fail(Here, "X.history", "a step of the specification", E)) /\ UNCHANGED vars
TNext == TStep \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
