-------------------------- MODULE TargetTableTrace --------------------------
(* Prepare [tabs, got, kept]; Stack [tabs, got, kept]; Merge [tabs, got, kept]:
   a merge of the stacked tabs. got: the resulting table of the real code;
   kept: whether the tables handed in are as before.                          *)
EXTENDS TargetTable, Conformance
VARIABLES l, bad, skip
TInit == channels = <<>> /\ target = Empty /\ l = 0 /\ bad = <<>> /\ skip = FALSE
E == Log[l + 1]
At == l + 1
Is(e) == l < Len(Log) /\ ~skip /\ E.ev = e /\ l' = At
Note(d) == bad' = bad \o d
M(x) == IF Len(x) = 0 THEN [k \in {} |-> 0] ELSE x[1]          \* empty objects
Norm(t) == [cols |-> t.cols, rows |-> t.rows, meta |-> M(t.meta)]
Kept == IF E.kept = 1 THEN <<>> ELSE Fail(At, "C08.inputs", "tables handed in unchanged", "changed")
Judge(C, Rr) == IF SameContent(E.got, C, Rr) THEN <<>>
                ELSE IF ColSet(E.got) # C \/ Len(E.got.cols) # Cardinality(C) THEN Fail(At, "C08.columns", C, E.got.cols)
                ELSE IF Len(E.got.rows) # Len(Rr) THEN Fail(At, "C08.rows", Len(Rr), Len(E.got.rows))
                ELSE LET i == CHOOSE j \in 1..Len(Rr) : E.got.rows[j] # Rr[j]
                     IN Fail(At, "C08.row", <<i, Rr[i]>>, E.got.rows[i])
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = At /\ skip' = FALSE /\ UNCHANGED <<vars, bad>>
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = At /\ skip' = TRUE /\ UNCHANGED vars
          /\ Note(Fail(At, "X.crash", "a result", E.error))
TPrepare == /\ Is("Prepare") /\ UNCHANGED skip
            /\ Prepare(E.tabs, Norm(E.got))
            /\ Note(Judge(AllCols(E.tabs), Stacked(E.tabs)) \o Kept)
TMerge == /\ Is("Merge") /\ UNCHANGED skip
          /\ LET res == [cols |-> E.got.cols, rows |-> <<>>, meta |-> M(E.meta)]
                 C == AllCols(E.tabs)
                 S == Stacked(E.tabs)
                 A == [i \in 1..Len(target.rows) |-> [c \in ColSet(target) \cup C |-> IF c \in C THEN S[i][c] ELSE target.rows[i][c]]]
             IN IF Len(S) # Len(target.rows) THEN Fail(At, "X.history", "results of every row", Len(S)) = <<>>
                ELSE Note(Judge(ColSet(target) \cup C, A) \o Kept
                          \o Diff(At, "C08.meta", MergedMeta(target, res), M(E.got.meta)))
          /\ Merge(E.tabs, Norm(E.got))
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = At /\ UNCHANGED <<vars, bad, skip>>
TStep == TReset \/ TCrash \/ TPrepare \/ TMerge \/ TSkip
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep /\ l' = At /\ skip' = TRUE
        /\ Note(Fail(At, "X.history", "a step of the specification", E)) /\ UNCHANGED vars
TNext == TStep \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
