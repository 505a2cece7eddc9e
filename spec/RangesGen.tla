------------------------------ MODULE RangesGen ------------------------------
(* every short text, and random longer ones, of which most are selections; plots *)
EXTENDS Ranges, TLC, Json, SequencesExt
CONSTANTS MAXLEN, LONG, PLOTS
CHARS == {"0", "1", "2", ",", "-", ":", " ", "x"}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE LET T == Texts(n - 1) IN T \cup {Append(t, c) : t \in {x \in T : Len(x) = n - 1}, c \in CHARS}
R(S) == RandomElement(S)
NumChars(n) == SelectSeq(<<IF n < 10 THEN " " ELSE ToString(n \div 10), ToString(n % 10)>>, LAMBDA c : c # " ")
Pad(k) == IF R(1..6) = 1 THEN <<" ">> ELSE <<>>
Junk(k) == R({<<"a">>, <<"1", ".", "5">>, <<"-", "1">>, <<"1", "-", "2", "-", "3">>, <<"3", "-">>, <<>>, <<"1", " ", "2">>, <<"n", "o", "n", "e">>, <<"a", "l", "l">>, <<"2", "-", "x">>, <<"1", ":", "3", "-", "4">>})
Rng(m, n) == Pad(1) \o NumChars(m) \o Pad(2) \o R({<<"-">>, <<":">>}) \o Pad(3) \o NumChars(n) \o Pad(4)
Item1(mx, bad) ==
    LET k == R(1..20) m == R(0..mx) IN
    IF k = 1 /\ bad THEN Junk(1) ELSE IF k <= 9 THEN Pad(1) \o NumChars(m) \o Pad(2)
    ELSE IF k = 10 THEN Rng(m, m) ELSE IF k = 11 THEN Rng(m, R(0..m)) ELSE Rng(m, R(m..mx))
RECURSIVE Items(_, _, _)
Items(n, mx, bad) == IF n = 1 THEN Item1(mx, bad) ELSE TLCEval(Item1(mx, bad)) \o <<",">> \o TLCEval(Items(n - 1, mx, bad))
Long(k) == LET q == R(1..12) IN IF q = 1 THEN Pad(1) \o <<"a", "l", "l">> \o Pad(2) ELSE IF q = 2 THEN Pad(1) \o <<"n", "o", "n", "e">> \o Pad(2)
           ELSE Items(R(1..5), R({3, 9, 14, 40}), TRUE)
Names == <<"WASP 12", "T1", "GJ 1214 b", "alpha", "T1 b", "K2-18", "55 Cnc">>
Plot(k) == LET n == R(2..7) q == R(1..10) IN
    [names |-> TLCEval(SetToSeq({Names[i] : i \in 1..n})),
     t |-> IF q <= 5 THEN TLCEval(Items(R(1..3), n - 1, FALSE)) ELSE IF q <= 8 THEN <<"a", "l", "l">> ELSE IF q = 9 THEN <<"n", "o", "n", "e">> ELSE TLCEval(<<"1", "-", "x">>),
     by |-> IF q = 6 \/ (q = 1 /\ R(1..3) = 1) THEN Names[R(1..n)] ELSE IF q = 7 THEN "T1" ELSE ""]
Chunk == 500
All1 == SetToSeq(Texts(MAXLEN))
Init == LET s == All1 IN
        /\ \A c \in 0..((Len(s) - 1) \div Chunk) : PrintT("CASE " \o ToJson([kind |-> "texts", n |-> 3, texts |-> SubSeq(s, c * Chunk + 1, (IF (c + 1) * Chunk < Len(s) THEN (c + 1) * Chunk ELSE Len(s)))]))
        /\ \A c \in 1..LONG : PrintT("CASE " \o ToJson([kind |-> "texts", n |-> R(0..20), texts |-> [i \in 1..100 |-> TLCEval(Long(i))]]))
        /\ \A c \in 1..PLOTS : PrintT("CASE " \o ToJson([kind |-> "plot"] @@ Plot(c)))
        /\ Begin(<<>>)
Next == FALSE /\ UNCHANGED vars
=============================================================================
