----------------------------- MODULE RangesTrace -----------------------------
(* Recorded selections of the real code against Ranges.
     Parse [text, n, out, ids]    ids: what was returned, <<>> for nothing
     Plot  [text, by, names, out, plots]  plots: the figures that were written    *)
EXTENDS Ranges, Conformance
VARIABLES l, bad, skip
TInit == Begin(<<>>) /\ l = 0 /\ bad = <<>> /\ skip = FALSE
E == Log[l + 1]
At == l + 1
Ev(e) == l < Len(Log) /\ ~skip /\ E.ev = e /\ l' = At
SetOf(q) == {q[i] : i \in 1..Len(q)}
TReset == l < Len(Log) /\ E.ev = "Reset" /\ l' = At /\ skip' = FALSE /\ UNCHANGED <<vars, bad>>
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = At /\ skip' = TRUE /\ UNCHANGED vars
          /\ bad' = bad \o Fail(At, "X.crash", "a result", E.error)
Go(found) == bad' = bad \o found /\ UNCHANGED <<vars, skip>>
TParse == Ev("Parse") /\ Go(IF E.out # "ok" THEN Fail(At, "C29.fails", <<E.text, Denotes(E.text, E.n)>>, E.out)
                            ELSE IF E.ids = Denotes(E.text, E.n) THEN <<>> ELSE Fail(At, "C29.ids", <<E.text, Denotes(E.text, E.n)>>, E.ids))
TPlot == Ev("Plot") /\ Go(IF PlotRefused(E.text, E.by) THEN Diff(At, "C29.both", "ValueError", E.out) \o Diff(At, "C29.plots", {}, SetOf(E.plots))
                          ELSE IF E.out # "ok" THEN Fail(At, "C29.fails", <<E.text, E.by>>, E.out)
                          ELSE IF SetOf(E.plots) = Plots(E.text, E.by, E.names) THEN <<>>
                          ELSE Fail(At, "C29.plots", <<E.text, E.by, Plots(E.text, E.by, E.names)>>, E.plots))
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = At /\ UNCHANGED <<vars, bad, skip>>
TNext == TReset \/ TCrash \/ TParse \/ TPlot \/ TSkip
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
