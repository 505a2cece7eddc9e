------------------------------ MODULE ZodiTrace ------------------------------
(* Zodi [sky, desc, at, got]: a zodiacal radiance of the real code, divided by
   the reference spectrum; -2 when that is not a constant                     *)
EXTENDS Zodi, Conformance
VARIABLES l, bad
TInit == sky = <<>> /\ desc = [map |-> "off", factor |-> -1, file |-> "none"] /\ at = <<>> /\ level = -1 /\ l = 0 /\ bad = <<>>
E == Log[l + 1]
At == l + 1
Is(e) == l < Len(Log) /\ E.ev = e /\ l' = At
Note(d) == bad' = bad \o d
TReset == Is("Reset") /\ UNCHANGED <<vars, bad>>
TCrash == Is("Crash") /\ UNCHANGED vars /\ Note(Fail(At, "X.crash", "a result", E.error))
TPoint == Is("Point") /\ Point(E.sky, E.desc, E.at) /\ UNCHANGED bad
Close(a, b) == a - b <= E.tol /\ b - a <= E.tol
TZodi == /\ Is("Zodi") /\ Estimate
         /\ Note(IF \E x \in Levels : Close(x, E.got) THEN <<>> ELSE Fail(At, IF UseMap THEN "C07.map" ELSE "C07.factor", Levels, E.got))
TNext == TReset \/ TCrash \/ TPoint \/ TZodi
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
