------------------------------- MODULE RangesMC -------------------------------
EXTENDS Ranges
CONSTANTS MAXLEN, CHARS
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE LET T == Texts(n - 1) IN T \cup {Append(t, c) : t \in {x \in T : Len(x) = n - 1}, c \in CHARS}
Init == \E t \in Texts(MAXLEN) : Begin(t)
Next == Read
Agree == Done => Result = Denotes(text, 3)
\* what is selected is what is listed
Covered == \A i \in 1..Len(ids) : ids[i] >= 0
=============================================================================
