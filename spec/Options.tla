------------------------------ MODULE Options ------------------------------
(* Parsing a payload description: a document is a sequence of opening and closing
   tags; the parser keeps the open tags on a stack and folds every closed one
   into the entries of its parent.

   A text is a sequence of characters; "@" stands for the configuration path
   placeholder, "<P1>" for a path. A value is
     none | int [m] | float [m, e] (m * 10^e) | bool [m] | text [t] | qty [m, e, unit]
   An item is [attrs, val, sub, data]; sub maps each tag to [many, items].     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES stack,   \* open tags: [tag, attrs, text, sub]
          path,    \* what the placeholder stands for, <<>> if unknown
          forced,  \* the path given for this run, <<>> if none
          result   \* <<>> or <<item>>: the parsed file
vars == <<stack, path, forced, result>>

\* ---- texts
Digits == [d \in {"0", "1", "2", "3", "5", "7", "9"} |->
              CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "5" -> 5 [] d = "7" -> 7 [] d = "9" -> 9]
IsD(ch) == ch \in DOMAIN Digits
AllD(s) == \A i \in 1..Len(s) : IsD(s[i])
RECURSIVE Num(_)
Num(s) == IF s = <<>> THEN 0 ELSE 10 * Num(SubSeq(s, 1, Len(s) - 1)) + Digits[s[Len(s)]]
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ Head(s) = " " THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] = " " THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))
Signed(s) == s # <<>> /\ Head(s) \in {"-", "+"}
Body(s) == IF Signed(s) THEN Tail(s) ELSE s
Sign(s) == IF s # <<>> /\ Head(s) = "-" THEN -1 ELSE 1
IsInt(s) == Len(Body(s)) > 0 /\ AllD(Body(s))
IntOf(s) == Sign(s) * Num(Body(s))
\* position of the first ch in s, 0 if none
Find(s, ch) == LET P == {i \in 1..Len(s) : s[i] = ch} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
Mant(s) == LET b == Body(s) k == Find(b, "e") IN IF k = 0 THEN b ELSE SubSeq(b, 1, k - 1)
Expo(s) == LET b == Body(s) k == Find(b, "e") IN IF k = 0 THEN <<"0">> ELSE SubSeq(b, k + 1, Len(b))
Whole(s) == LET p == Find(Mant(s), ".") IN IF p = 0 THEN Mant(s) ELSE SubSeq(Mant(s), 1, p - 1)
Frac(s) == LET p == Find(Mant(s), ".") IN IF p = 0 THEN <<>> ELSE SubSeq(Mant(s), p + 1, Len(Mant(s)))
IsFloat(s) == Len(Whole(s)) + Len(Frac(s)) > 0 /\ AllD(Whole(s)) /\ AllD(Frac(s)) /\ IsInt(Expo(s))
RECURSIVE Norm(_, _)   \* no trailing zeros
Norm(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m % 10 = 0 THEN Norm(m \div 10, e + 1) ELSE <<m, e>>
Signed10(s) == LET n == Norm(Num(Whole(s) \o Frac(s)), IntOf(Expo(s)) - Len(Frac(s))) IN <<Sign(s) * n[1], n[2]>>

RECURSIVE Subst(_, _)
Subst(s, p) == IF s = <<>> THEN <<>> ELSE (IF Head(s) = "@" THEN p ELSE <<Head(s)>>) \o Subst(Tail(s), p)

None == [k |-> "none"]
Value(raw, attrs, p) ==
    LET s == Trim(raw) IN
    IF s = <<>> THEN None
    ELSE IF "unit" \in DOMAIN attrs /\ (IsInt(s) \/ IsFloat(s))
         THEN LET n == Signed10(s) IN
              [k |-> "qty", m |-> n[1], e |-> n[2], unit |-> IF attrs["unit"] = "dimensionless" THEN "" ELSE attrs["unit"]]
    ELSE IF IsInt(s) THEN [k |-> "int", m |-> IntOf(s)]
    ELSE IF IsFloat(s) THEN LET n == Signed10(s) IN [k |-> "float", m |-> n[1], e |-> n[2]]
    ELSE IF s = <<"T", "r", "u", "e">> THEN [k |-> "bool", m |-> 1]
    ELSE IF s = <<"F", "a", "l", "s", "e">> THEN [k |-> "bool", m |-> 0]
    ELSE [k |-> "text", t |-> Subst(s, p)]

\* ---- tables: the file a text points to
Data(sub) == IF "datafile" \in DOMAIN sub THEN sub["datafile"].items[1].val.t ELSE <<>>

Add(sub, tag, item) ==
    [t \in DOMAIN sub \union {tag} |->
        IF t # tag THEN sub[t]
        ELSE IF tag \in DOMAIN sub THEN [many |-> 1, items |-> Append(sub[tag].items, item)]
        ELSE [many |-> 0, items |-> <<item>>]]

\* ---- the parser
Start(p) == /\ stack = <<>> /\ forced' = p /\ path' = p /\ result' = <<>>
            /\ stack' = <<[tag |-> "root", attrs |-> <<>>, text |-> <<>>, sub |-> <<>>]>>
Open(tag, attrs, text) ==
    /\ stack # <<>> /\ stack' = Append(stack, [tag |-> tag, attrs |-> attrs, text |-> text, sub |-> <<>>])
    /\ UNCHANGED <<path, forced, result>>
Item(f) == [attrs |-> f.attrs, val |-> Value(f.text, f.attrs, path), sub |-> f.sub, data |-> Data(f.sub)]
Close ==
    /\ Len(stack) > 1
    /\ LET f == stack[Len(stack)] up == stack[Len(stack) - 1] IN
       /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 2), [up EXCEPT !.sub = Add(up.sub, f.tag, Item(f))])
       /\ path' = IF f.tag = "ConfigPath" /\ forced = <<>> THEN Value(f.text, f.attrs, path).t ELSE path
    /\ UNCHANGED <<forced, result>>
Finish == /\ Len(stack) = 1 /\ result' = <<Item(stack[1])>> /\ stack' = <<>> /\ UNCHANGED <<path, forced>>
\* the file, one of its tables or its format is not there: nothing is parsed
Refuse == /\ stack' = <<>> /\ result' = <<>> /\ UNCHANGED <<path, forced>>
Idle == stack = <<>> /\ path = <<>> /\ forced = <<>> /\ result = <<>>
=============================================================================
