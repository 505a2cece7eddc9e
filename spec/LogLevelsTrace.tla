--------------------------- MODULE LogLevelsTrace ---------------------------
(* Recorded messages of the real code against LogLevels. Every event carries
     seen    the levels of five test messages, one of each level, sent after the call,
             that were shown,
     infile  how often they are, together, in each log file
     msgs    what the call emitted: [phase, lev, n, missing, shown, twice,
             files: [f, missing, twice] each]
   phase: "skip" the last word on a target that failed, "while" everything else    *)
EXTENDS LogLevels, Conformance
VARIABLES l, bad, skip
TInit == Start /\ l = 0 /\ bad = <<>> /\ skip = FALSE
E == Log[l + 1]
At == l + 1
Ev(e) == l < Len(Log) /\ ~skip /\ E.ev = e /\ l' = At
SetOf(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = At /\ skip' = FALSE /\ bad' = bad
          /\ level' = Info /\ off' = 0 /\ was' = 0 /\ files' = {}
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = At /\ skip' = TRUE /\ UNCHANGED vars
          /\ bad' = bad \o Fail(At, "X.crash", "a result", E.error)
Low(S) == IF S = {} THEN 99 ELSE CHOOSE x \in S : \A y \in S : x <= y
\* the level that the test messages show; the files
After(clause) ==
    (IF SetOf(E.seen) = Seen(level') THEN <<>> ELSE Fail(At, clause, <<"shown from", level'>>, <<"shown", E.seen>>))
    \o (IF {E.infile[i].f : i \in 1..Len(E.infile)} # files' THEN Fail(At, "C21.file", files', E.infile)
        ELSE IF \E i \in 1..Len(E.infile) : E.infile[i].n # Cardinality(Levels) THEN Fail(At, "C21.file", "each message once", E.infile) ELSE <<>>)
Go(found) == bad' = bad \o found /\ skip' = (found # <<>>)
Ok == IF E.out = "ok" THEN <<>> ELSE Fail(At, "X.crash", "ok", E.out)
\* the messages of the call, the user's level being x
Msgs(x, all) ==
    Cat([i \in 1..Len(E.msgs) |-> LET m == E.msgs[i] IN
         (IF m.phase = "skip"
          THEN (IF Shows(x, m) THEN <<>> ELSE Fail(At, "C21.skipped", <<"shown from", x>>, m))
          ELSE IF (IF all THEN Shows(x, m) ELSE ShowsSome(x, m)) THEN <<>> ELSE Fail(At, IF all THEN "C21.debug" ELSE "C21.shown", <<"shown from", x>>, m))
         \o Cat([j \in 1..Len(m.files) |-> IF Files(m.files[j]) THEN <<>> ELSE Fail(At, "C21.file.messages", "each message once", m)])])
\* those who failed are reported, with a warning at least
Told == IF E.untold = <<>> THEN <<>> ELSE Fail(At, "C21.skipped", "a warning", E.untold)
TSet == Ev("Set") /\ Set(E.x) /\ Go(Ok \o After("C21.set"))
TDisable == Ev("Disable") /\ Disable /\ Go(Ok \o After("C21.disable"))
TEnable == /\ Ev("Enable")
           /\ IF Enabled(Low(SetOf(E.seen))) THEN Enable(Low(SetOf(E.seen))) /\ Go(Ok \o After("C21.enable"))
              ELSE UNCHANGED vars /\ Go(Fail(At, "C21.enable", <<"shown from", off>>, E.seen))
TAddFile == Ev("AddFile") /\ AddFile(E.x) /\ Go(Ok \o After("C21.file"))
TObserve == Ev("Observe") /\ Observe(E.debug = 1) /\ Go(Ok \o After("C21.restored") \o Msgs(level, E.debug = 1) \o Told)
TPipeline == Ev("Pipeline") /\ Pipeline(E.debug = 1, E.x) /\ Go(Ok \o After("C21.restored") \o Msgs(level', E.debug = 1) \o Told)
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = At /\ UNCHANGED <<vars, bad, skip>>
TStep == TReset \/ TCrash \/ TSet \/ TDisable \/ TEnable \/ TAddFile \/ TObserve \/ TPipeline \/ TSkip
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep /\ l' = At /\ skip' = TRUE
        /\ bad' = bad \o Fail(At, "X.history", "a step of the specification", E) /\ UNCHANGED vars
TNext == TStep \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
