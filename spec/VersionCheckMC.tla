---------------------------- MODULE VersionCheckMC ----------------------------
EXTENDS VersionCheck
VARIABLE left
Lines == {[k |-> "head", v |-> "1"], [k |-> "head", v |-> "2"], [k |-> "head", v |-> "12"], [k |-> "unreleased", v |-> ""], [k |-> "text", v |-> "1"], [k |-> "empty", v |-> ""]}
Logs == UNION {[1..n -> Lines] : n \in 0..5}
MInit == Init /\ left = 1
MCheck == left > 0 /\ left' = left - 1 /\ \E r \in 0..1 : \E a \in {"log", "down"} : \E ls \in Logs : \E m \in {"1", "2"} : \E f \in 0..1 :
            ((r = 0 \/ a # "log" => Len(ls) < 2) = TRUE) /\ Check([reach |-> r, answer |-> a], ls, m, f)
MStep == Step /\ UNCHANGED left
MNext == MCheck \/ MStep
\* the piece told is all there is above the installed release
Whole == phase = "told" => lines = <<>> \/ (Head(lines).k = "head" /\ Head(lines).v = mine)
=============================================================================
