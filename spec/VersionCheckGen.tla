--------------------------- MODULE VersionCheckGen ---------------------------
(* random changelogs, installed versions and troubles of the network, some after each other *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT N
VARIABLE c
R(S) == RandomElement(S)
Bool(p) == R(1..10) <= p
\* many are beginnings, ends or parts of others
Versions == <<"2.1.1", "2.1.12", "2.1.2", "2.1.20", "12.1.1", "2.1.1-beta", "2.1", "own", "1.2.1", "3.0.0">>
RECURSIVE Some(_, _)
Some(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET x == TLCEval(R(S)) IN <<x>> \o Some(S \ {x}, k - 1)
Vs(k) == Some({Versions[i] : i \in 1..Len(Versions)}, k)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Text(z) == IF Bool(2) THEN [k |-> "empty", v |-> "", how |-> ""]
           ELSE [k |-> "text", v |-> IF Bool(5) THEN Versions[R(1..Len(Versions))] ELSE "", how |-> R({"plain", "brackets", "heading", "unicode"})]
Texts(n) == TLCEval([i \in 1..TLCEval(R(0..n)) |-> TLCEval(Text(i))])
H(v, w) == [k |-> "head", v |-> v, how |-> R({"dated", "bare", "after"}), w |-> w]
\* releases, the newest first; the installed one is among them or older than all of them
Changes(vs) == TLCEval(Flat([i \in 1..Len(vs) |-> TLCEval(<<H(vs[i], IF i < Len(vs) THEN vs[i + 1] ELSE "0.1")>> \o Texts(4))]))
Chance(z) == Bool(7)
Logged(vs, z) == TLCEval(Texts(2) \o (IF Chance(z) THEN <<[k |-> "unreleased", v |-> "", how |-> ""]>> \o Texts(2) ELSE <<>>) \o Changes(vs))
Answers == {"404", "403", "500", "refused", "timeout", "cut", "notjson", "list", "nocontent", "null", "notbase64"}
Check(z) ==
    LET vs == TLCEval(Vs(TLCEval(R(1..5))))
        own == TLCEval(Bool(3))
        ws == IF own THEN TLCEval(<<R({v \in {Versions[i] : i \in 1..Len(Versions)} : v # "own"}), "own">>) ELSE vs
        here == TLCEval(IF own THEN "own" ELSE vs[R(1..Len(vs))])
        \* the installed one may be too old to be in the log
        listed == TLCEval(IF Bool(2) THEN SelectSeq(vs, LAMBDA v : v # here) ELSE IF own THEN (IF Bool(6) THEN ws ELSE <<"own">> \o SelectSeq(vs, LAMBDA v : v # "own")) ELSE vs) IN
    [by |-> IF own /\ Bool(7) THEN "import" ELSE "call", mine |-> here, lines |-> Logged(listed, z),
     reach |-> IF Bool(9) THEN 1 ELSE 0, answer |-> IF Bool(6) THEN "log" ELSE R(Answers),
     force |-> R(0..1), home |-> R({"", "", "team/code", "me/my-code.py"}), wait |-> R({0, 7})]
\* an import never insists, and asks for the package's own
Fit(x) == IF x.by = "import" THEN [x EXCEPT !.force = 0, !.home = ""] ELSE x
One(i) == [id |-> i, checks |-> TLCEval([k \in 1..TLCEval(R(2..4)) |-> TLCEval(Fit(TLCEval(Check(k))))])]
Init == \E i \in 1..N : \E x \in {TLCEval(One(i))} : c = x
Next == UNCHANGED c
Out == PrintT("CASE " \o ToJson(c))
=============================================================================
