----------------------------- MODULE CommandTrace -----------------------------
(* Recorded commands against Command.
     Disk [files]                  what is there before
     Command [words]               a command is given; its words are read one by one
     Ended [end, screen, workers, files]   what became of it: "ok", "failed", "refused", "help";
          screen: [debug, info, usage] shown; workers: [main, others] processes that observed;
          files: <<[at: <<dir, name>>, kind, of, on, targets: <<[name, token]>>, full, n]>>
          token: 1 if the target's table is the one the interface gives for this
          instrument and star                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Conformance
L(l) == IF l = "few" THEN {"s 1", "s 2"} ELSE {"s 2", "t", "u 3"}
VARIABLES words, set, mode, disk, l, bad, skip
C == INSTANCE Command WITH Lists <- L
vars == <<words, set, mode, disk>>
TInit == C!Init /\ l = 0 /\ bad = <<>> /\ skip = FALSE
E == Log[l + 1]
Here == l + 1
Ev(e) == l < Len(Log) /\ ~skip /\ E.ev = e
Note(d) == bad' = bad \o d
SetOf(q) == {q[i] : i \in 1..Len(q)}
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = Here /\ skip' = FALSE /\ UNCHANGED bad
          /\ words' = <<>> /\ set' = C!Default /\ mode' = "idle" /\ disk' = [f \in {} |-> 0]
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = Here /\ skip' = TRUE /\ UNCHANGED vars
          /\ Note(Fail(Here, "X.crash", "a command", E.error))
Content(x) == C!File(x.kind, x.of, x.on, {x.targets[i].name : i \in 1..Len(x.targets)}, x.full = 1, x.n)
Seen(fs) == [f \in {fs[i].at : i \in 1..Len(fs)} |-> LET i == CHOOSE i \in 1..Len(fs) : fs[i].at = f IN Content(fs[i])]
TDisk == Ev("Disk") /\ l' = Here /\ disk' = Seen(E.files) /\ UNCHANGED <<words, set, mode, bad, skip>>
TCommand == Ev("Command") /\ l' = Here /\ C!Start(E.words) /\ UNCHANGED <<bad, skip>>
TRead == Ev("Ended") /\ C!Read /\ UNCHANGED <<l, bad, skip>>
TSettle == Ev("Ended") /\ C!Settle /\ UNCHANGED <<l, bad, skip>>
Said == C!Said(Seen(E.files)) - C!Said(disk)
TRun == Ev("Ended") /\ C!Run /\ UNCHANGED <<l, bad, skip>>
TFail == Ev("Ended") /\ C!Fail_(IF Said = 1 THEN 1 ELSE 0) /\ UNCHANGED <<l, bad, skip>>
\* a log in which nothing was said may be there or not
Speak(d) == {f \in DOMAIN d : ~(f = C!Log_ /\ d[f].n = 0)}
Files == LET a == Seen(E.files) IN
    Diff(Here, "C34.files", Speak(disk), Speak(a)) \o
    (LET odd == {f \in DOMAIN a \cap DOMAIN disk : a[f] # disk[f]} IN
     IF odd = {} THEN <<>> ELSE LET f == CHOOSE f \in odd : TRUE IN
        IF disk[f].kind # a[f].kind THEN Fail(Here, "C34.kept", <<f, disk[f]>>, a[f])
        ELSE IF disk[f].targets # a[f].targets THEN Fail(Here, "C34.targets", <<f, disk[f].targets>>, a[f].targets)
        ELSE IF disk[f].full # a[f].full THEN Fail(Here, "C34.contributions", <<f, disk[f].full>>, a[f].full)
        ELSE IF disk[f].n # a[f].n THEN Fail(Here, "C34.log", <<f, disk[f].n>>, a[f].n)
        ELSE Fail(Here, "C34.kept", <<f, disk[f]>>, a[f]))
Tables == \A i \in 1..Len(E.files) : \A k \in 1..Len(E.files[i].targets) : E.files[i].targets[k].token = 1
Screen == IF mode \in {"help", "refused"} THEN Diff(Here, "C34.usage", 1, E.screen.usage)
          ELSE IF mode = "ok" THEN Diff(Here, "C34.debug", IF set.d THEN 1 ELSE 0, E.screen.debug) \o Diff(Here, "C34.info", 1, E.screen.info) ELSE <<>>
\* one by one in the command itself, or by no more helpers than asked for
Workers == IF mode # "ok" THEN <<>>
           ELSE IF set.n = 1 THEN Diff(Here, "C34.workers", <<"main", Cardinality(L(disk[set.t].of)), 0>>, <<"main", E.workers.main, E.workers.others>>)
           ELSE IF E.workers.main = 0 /\ E.workers.others \in 1..set.n THEN <<>> ELSE Fail(Here, "C34.workers", set.n, E.workers)
TEnded == /\ Ev("Ended") /\ mode \in {"ok", "failed", "refused", "help"} /\ l' = Here /\ UNCHANGED <<words, set, mode, skip>>
          /\ disk' = Seen(E.files)
          /\ Note(IF E.end # mode THEN Fail(Here, "C34.end", mode, E.end)
                  ELSE Files \o (IF Tables THEN <<>> ELSE Fail(Here, "C34.tables", "the same tables", E.files)) \o Screen \o Workers)
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = Here /\ UNCHANGED <<vars, bad, skip>>
TStep == TReset \/ TCrash \/ TDisk \/ TCommand \/ TRead \/ TSettle \/ TRun \/ TFail \/ TEnded \/ TSkip
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep /\ l' = Here /\ skip' = TRUE
        /\ Note(Fail(Here, "X.history", "a step of the specification", E)) /\ UNCHANGED vars
TNext == TStep \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
