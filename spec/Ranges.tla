-------------------------------- MODULE Ranges --------------------------------
(* Selecting targets by a text such as "0,3-5,8:9". The text is read one
   character at a time by a scanner; what a text denotes is also said directly
   (Denotes), and the two are checked to agree on every short text.

   text   the text, a sequence of characters;  pos: how many were read
   ids    the indices selected so far
   a, b   the numbers of the item being read, -1 when not begun
   phase  "start", "first", "gap1" (after the first number), "dash", "second",
          "gap2", "bad" (this is no selection)                                 *)
EXTENDS Integers, Sequences, FiniteSets
Digit == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
    CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
      [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
IsDigit(c) == c \in DOMAIN Digit
IsDash(c) == c \in {"-", ":"}
Span(m, n) == [i \in 1..(IF n < m THEN 0 ELSE n - m + 1) |-> m + i - 1]
\* -- directly --------------------------------------------------------------------
RECURSIVE Trim(_)
Trim(t) == IF t = <<>> THEN t
           ELSE IF t[1] = " " THEN Trim(Tail(t))
           ELSE IF t[Len(t)] = " " THEN Trim(SubSeq(t, 1, Len(t) - 1)) ELSE t
RECURSIVE Split(_, _)
Split(t, S) ==   \* the pieces of t between characters of S
    IF \A i \in 1..Len(t) : t[i] \notin S THEN <<t>>
    ELSE LET i == CHOOSE i \in 1..Len(t) : t[i] \in S /\ \A j \in 1..(i - 1) : t[j] \notin S
         IN <<SubSeq(t, 1, i - 1)>> \o Split(SubSeq(t, i + 1, Len(t)), S)
IsNumber(t) == t # <<>> /\ \A i \in 1..Len(t) : IsDigit(t[i])
RECURSIVE Number(_)
Number(t) == IF t = <<>> THEN 0 ELSE 10 * Number(SubSeq(t, 1, Len(t) - 1)) + Digit[t[Len(t)]]
Ends(item) == LET p == Split(item, {"-", ":"}) IN [i \in 1..Len(p) |-> Trim(p[i])]
IsItem(item) == LET e == Ends(item) IN Len(e) \in {1, 2} /\ \A i \in 1..Len(e) : IsNumber(e[i])
RECURSIVE All(_)
All(items) == IF items = <<>> THEN <<>>
              ELSE LET e == Ends(items[1]) IN Span(Number(e[1]), Number(e[Len(e)])) \o All(Tail(items))
Word(t, w) == Trim(t) = w
\* the indices selected, of n that there are; nothing for what is no selection
Selects(t) == LET items == Split(t, {","}) IN \A i \in 1..Len(items) : IsItem(items[i])
Denotes(t, n) ==
    IF Word(t, <<"a", "l", "l">>) THEN Span(0, n - 1)
    ELSE IF Word(t, <<"n", "o", "n", "e">>) THEN <<>>
    ELSE IF Selects(t) THEN All(Split(t, {","})) ELSE <<>>
\* -- by reading -----------------------------------------------------------------------
VARIABLES text, pos, ids, a, b, phase
vars == <<text, pos, ids, a, b, phase>>
Begin(t) == text = t /\ pos = 0 /\ ids = <<>> /\ a = -1 /\ b = -1 /\ phase = "start"
Item == CASE phase \in {"first", "gap1"} -> Span(a, a) [] phase \in {"second", "gap2"} -> Span(a, b) [] OTHER -> <<>>
Complete == phase \in {"first", "gap1", "second", "gap2"}
ReadDigit(c) ==
    /\ IsDigit(c)
    /\ CASE phase = "start" -> phase' = "first" /\ a' = Digit[c] /\ b' = b
         [] phase = "first" -> phase' = "first" /\ a' = 10 * a + Digit[c] /\ b' = b
         [] phase = "dash" -> phase' = "second" /\ b' = Digit[c] /\ a' = a
         [] phase = "second" -> phase' = "second" /\ b' = 10 * b + Digit[c] /\ a' = a
         [] OTHER -> phase' = "bad" /\ UNCHANGED <<a, b>>
    /\ ids' = ids
ReadBlank(c) ==
    /\ c = " "
    /\ phase' = (CASE phase = "first" -> "gap1" [] phase = "second" -> "gap2" [] OTHER -> phase)
    /\ UNCHANGED <<ids, a, b>>
ReadDash(c) ==
    /\ IsDash(c)
    /\ phase' = (IF phase \in {"first", "gap1"} THEN "dash" ELSE "bad")
    /\ UNCHANGED <<ids, a, b>>
ReadComma(c) ==
    /\ c = ","
    /\ IF Complete THEN ids' = ids \o Item /\ phase' = "start" /\ a' = -1 /\ b' = -1
       ELSE phase' = "bad" /\ UNCHANGED <<ids, a, b>>
ReadOther(c) == ~IsDigit(c) /\ ~IsDash(c) /\ c \notin {" ", ","} /\ phase' = "bad" /\ UNCHANGED <<ids, a, b>>
Read == /\ pos < Len(text)
        /\ LET c == text[pos + 1] IN ReadDigit(c) \/ ReadBlank(c) \/ ReadDash(c) \/ ReadComma(c) \/ ReadOther(c)
        /\ pos' = pos + 1 /\ text' = text
Done == pos = Len(text)
Result == IF Complete THEN ids \o Item ELSE <<>>
\* -- which targets of a file are plotted -------------------------------------------------
\* names: the targets in the file in order; by: "" or the name that is asked for
PlotRefused(t, by) == by # "" /\ ~Word(t, <<"a", "l", "l">>)
Plots(t, by, names) ==
    LET r == Denotes(t, Len(names)) IN
    {names[r[i] + 1] : i \in {j \in 1..Len(r) : r[j] < Len(names) /\ (by = "" \/ names[r[j] + 1] = by)}}
=============================================================================
