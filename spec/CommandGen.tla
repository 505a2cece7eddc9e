------------------------------ MODULE CommandGen ------------------------------
(* random command lines, some after each other in one place *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANT N
VARIABLE c
R(S) == RandomElement(S)
Bool(p) == R(1..10) <= p
RECURSIVE Some(_, _)
Some(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET x == TLCEval(R(S)) IN <<x>> \o Some(S \ {x}, k - 1)
Shuffle(s) == LET o == TLCEval(Some(1..Len(s), Len(s))) IN [i \in 1..Len(s) |-> s[o[i]]]
W(o, f, v) == [opt |-> o, form |-> f, val |-> v]
ValForms == {"short", "short", "joined", "long", "equals"}
Valued(o, v) == <<W(o, R(ValForms), v)>>
Flag(o) == <<W(o, R({"short", "long", "bundle"}), <<>>)>>
Out(k) == <<"out", "a.h5">>
Given == {<<"in", "one.xml">>, <<"in", "two.xml">>, <<"in", "built.h5">>}
\* an output file has the instrument in it only when it was described: those of out/a.h5 always were
Os(p) == IF p[2] \in {"built.h5", "a.h5"} THEN {<<".", "res.h5">>, <<"new/deep", "b.h5">>, <<"out", "built.h5">>, p} ELSE {<<".", "res.h5">>, <<"out", "a.h5">>, <<"out", "a.h5">>, <<"in", "c.h5">>, <<"new/deep", "b.h5">>}
Opt(p, x) == IF Bool(p) THEN x ELSE <<>>
Bad(z) == R({<<"--verbose">>, <<"-x">>, <<"stray">>, <<"-n", "two">>, <<"-n", "1.5">>, <<"-o">>, <<"--Plot">>})
Line(z) ==
    LET p == TLCEval(IF Bool(1) THEN <<"in", "none.xml">> ELSE IF Bool(7) THEN R(Given) ELSE <<"out", "a.h5">>)
        t == TLCEval(IF Bool(1) THEN <<"in", "none.csv">> ELSE R({<<"in", "few.csv">>, <<"in", "more.csv">>}))
        o == TLCEval(IF Bool(1) THEN t ELSE R(Os(p)))
        ws == TLCEval(Opt(10 - (IF Bool(1) THEN 7 ELSE 0), Valued("p", p)) \o Opt(10 - (IF Bool(1) THEN 5 ELSE 0), Valued("t", t)) \o Opt(8, Valued("o", o)) \o Opt(4, Valued("n", <<R({"1", "2", "3", "8"})>>))
              \o Opt(4, Flag("c")) \o Opt(3, Flag("d")) \o Opt(4, Flag("l")) \o Opt(3, Flag("P")) \o Opt(1, Valued("t", t)) \o Opt(1, Flag("c"))) IN
    LET sh == TLCEval(Shuffle(ws)) IN
    IF Bool(1) /\ Bool(5) THEN <<W("help", R({"short", "long"}), <<>>)>>
    ELSE IF Bool(1) THEN TLCEval(sh \o <<W("bad", "plain", Bad(z))>>) ELSE sh
One(i) == [id |-> i, lines |-> TLCEval([k \in 1..TLCEval(R(2..4)) |-> TLCEval(Line(k))])]
Init == \E i \in 1..N : \E x \in {TLCEval(One(i))} : c = x
Next == UNCHANGED c
Out_ == PrintT("CASE " \o ToJson(c))
=============================================================================
