----------------------------- MODULE RebinTrace -----------------------------
(* Recorded resamplings of the real code against Rebin.
   Signal [grid, data, unit]; Rebin [x, unit, out, grid, data, dunit, kept]   *)
EXTENDS Rebin, Conformance
VARIABLES l, bad, skip
TInit == grid = <<>> /\ data = <<>> /\ unit = "um" /\ l = 0 /\ bad = <<>> /\ skip = FALSE
E == Log[l + 1]
At == l + 1
Ev(e) == l < Len(Log) /\ ~skip /\ E.ev = e /\ l' = At
Note(d) == bad' = bad \o d
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = At /\ skip' = FALSE /\ UNCHANGED <<vars, bad>>
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = At /\ skip' = TRUE /\ UNCHANGED vars
          /\ Note(Fail(At, "X.crash", "a result", E.error))
TSignal == Ev("Signal") /\ grid' = E.grid /\ data' = E.data /\ unit' = E.unit /\ UNCHANGED <<bad, skip>>
Keeps == (IF E.kept = 1 THEN <<>> ELSE Fail(At, "C24.inputs", "inputs unchanged", "changed"))
TRebin == /\ Ev("Rebin") /\ E.out = "ok" /\ Accepted(E.unit)
          /\ IF /\ Len(E.data) = Len(E.x) /\ E.grid = E.x
                /\ Fits(E.x, E.data, 3)
             THEN /\ RebinTo(E.x, E.unit, E.data, 3)
                  /\ Note(Keeps \o Diff(At, "C24.unit", "same", E.dunit)) /\ UNCHANGED skip
             ELSE /\ UNCHANGED vars /\ skip' = TRUE
                  /\ Note(IF Len(E.data) # Len(E.x) \/ E.grid # E.x THEN Fail(At, "C24.grid", E.x, <<E.grid, Len(E.data)>>)
                          ELSE LET i == CHOOSE j \in 1..Len(E.x) : ~ Is(Pts(E.x), E.x[j], E.data[j], 3)
                               IN Fail(At, IF Coarser(Pts(E.x)) THEN "C24.mean" ELSE "C24.interpolation",
                                       <<"point", E.x[i], "value (fraction)", New(Pts(E.x), E.x[i])>>, E.data[i]))
TRejected == /\ Ev("Rebin") /\ ~ Accepted(E.unit) /\ E.out = "ValueError" /\ RebinTo(E.x, E.unit, <<>>, 0)
             /\ UNCHANGED skip
             /\ Note(Keeps \o Diff(At, "C24.rejected.grid", grid, E.grid) \o Diff(At, "C24.rejected.data", data, E.data))
TWrong == /\ Ev("Rebin") /\ (Accepted(E.unit) # (E.out = "ok")) /\ ~(~Accepted(E.unit) /\ E.out = "ValueError")
          /\ skip' = TRUE /\ UNCHANGED vars
          /\ Note(Fail(At, "C24.accepted", IF Accepted(E.unit) THEN "ok" ELSE "ValueError", E.out))
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = At /\ UNCHANGED <<vars, bad, skip>>
TStep == TReset \/ TCrash \/ TSignal \/ TRebin \/ TRejected \/ TWrong \/ TSkip
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep /\ l' = At /\ skip' = TRUE
        /\ Note(Fail(At, "X.history", "a step of the specification", E)) /\ UNCHANGED vars
TNext == TStep \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
