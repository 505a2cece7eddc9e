---------------------------- MODULE TargetNames ----------------------------
(* The texts of target lists, letter by letter, and what it is to look for one. *)
EXTENDS Integers, Sequences, TLC
Spelled == <<<<"A", "l", "p", "h", "a">>, <<"b", "e", "t", "a", " ", "C", "e", "n">>, <<"H", "D", " ", "1">>, <<"5", "5", " ", "C", "n", "c">>, <<"a", ",", "b">>, <<"K", "2", "-", "1", "8", " ", "b">>, <<"x">>, <<"K", "e", "p", "l", "e", "r", "-", "1">>, <<"A", "b">>>>
Capitals == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Smalls == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Lower(ch) == IF \E i \in 1..26 : Capitals[i] = ch THEN Smalls[CHOOSE i \in 1..26 : Capitals[i] = ch] ELSE ch
Upper(ch) == IF \E i \in 1..26 : Smalls[i] = ch THEN Capitals[CHOOSE i \in 1..26 : Smalls[i] = ch] ELSE ch
\* spaces, hyphens and capitals do not matter
RECURSIVE Compact(_)
Compact(q) == IF q = <<>> THEN <<>> ELSE (IF Head(q) \in {" ", "-"} THEN <<>> ELSE <<Lower(Head(q))>>) \o Compact(Tail(q))
Part(q, t) == \E i \in 0..(Len(t) - Len(q)) : \A k \in 1..Len(q) : t[i + k] = q[k]
Matches(q, n) == Part(Compact(q), Compact(Spelled[n]))
=============================================================================
