---------------------------- MODULE OptionsTrace ----------------------------
(* Recorded parses of real description files against Options.
   Start [path]   Open [tag, attrs, text]   Close
   Parsed [result]      what the real parser returned
   Refused [error]      an OS error                                          *)
EXTENDS Options, Conformance
VARIABLES l, bad, skip
E == Log[l + 1]
At == l + 1
TInit == Idle /\ l = 0 /\ bad = <<>> /\ skip = FALSE
Is(e) == l < Len(Log) /\ ~skip /\ E.ev = e /\ l' = At
Note(d) == bad' = bad \o d
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = At /\ skip' = FALSE
          /\ stack' = <<>> /\ path' = <<>> /\ forced' = <<>> /\ result' = <<>> /\ UNCHANGED bad
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = At /\ skip' = TRUE /\ UNCHANGED vars
          /\ Note(Fail(At, "X.crash", "a result", E.error))
TStart == Is("Start") /\ Start(E.path) /\ UNCHANGED <<bad, skip>>
TOpen == Is("Open") /\ Open(E.tag, E.attrs, E.text) /\ UNCHANGED <<bad, skip>>
TClose == Is("Close") /\ Close /\ UNCHANGED <<bad, skip>>

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Pick(S) == CHOOSE s \in S : TRUE
RECURSIVE Tour(_)
Tour(S) == IF S = {} THEN <<>> ELSE LET x == Pick(S) IN <<x>> \o Tour(S \ {x})
\* values Python takes for the same key
Same(a, b) == LET num(v) == IF v.k \in {"int", "bool"} THEN LET n == Norm(IF v.m < 0 THEN -v.m ELSE v.m, 0) IN <<IF v.m < 0 THEN -n[1] ELSE n[1], n[2]>>
                            ELSE IF v.k = "float" THEN <<v.m, v.e>> ELSE <<>>
              IN a = b \/ (num(a) # <<>> /\ num(a) = num(b))
KeyOk(items, i, key) == IF items[i].val.k \in {"none", "qty"} \/ \E j \in 1..(i - 1) : Same(items[j].val, items[i].val) THEN TRUE
                        ELSE Same(key, items[i].val)
RECURSIVE Cmp(_, _, _)
Cmp(where, x, g) ==
    Diff(At, "C19.attributes", <<where, x.attrs>>, <<where, g.attrs>>)
    \o Diff(At, "C19.value", <<where, x.val>>, <<where, g.val>>)
    \o Diff(At, "C19.table", <<where, x.data>>, <<where, g.data>>)
    \o (IF DOMAIN x.sub # DOMAIN g.sub THEN Fail(At, "C19.tags", <<where, DOMAIN x.sub>>, <<where, DOMAIN g.sub>>)
        ELSE Cat([i \in 1..Cardinality(DOMAIN x.sub) |->
               LET t == Tour(DOMAIN x.sub)[i] xs == x.sub[t].items gs == g.sub[t].items IN
               IF Len(xs) # Len(gs) THEN Fail(At, "C19.repetitions", <<where, t, Len(xs)>>, <<where, t, Len(gs)>>)
               ELSE IF x.sub[t].many # g.sub[t].many THEN Fail(At, "C19.repetitions", <<where, t, "collection">>, <<where, t, g.sub[t].many>>)
               ELSE Cat([j \in 1..Len(xs) |-> Cmp(Append(where, t), xs[j], gs[j])
                         \o (IF x.sub[t].many = 1 /\ ~KeyOk(xs, j, gs[j].key) THEN Fail(At, "C19.key", <<where, t, xs[j].val>>, gs[j].key) ELSE <<>>)])]))
TParsed == /\ Is("Parsed") /\ Finish /\ UNCHANGED skip
           /\ Note(Cmp(<<>>, Item(stack[1]), E.result))
TRefused == /\ Is("Refused") /\ Refuse /\ UNCHANGED skip
            /\ Note(Diff(At, "C19.refusal", "OSError", E.error))
\* names of the channels of a class, in the file's order, however the class is written
OfClass(chans, b) == LET Is_(ch) == ch.base = b IN LET q == SelectSeq(chans, Is_) IN [i \in 1..Len(q) |-> q[i].name]
TListed == /\ Is("Listed") /\ UNCHANGED <<vars, skip>>
           /\ Note(Diff(At, "C19.channels", OfClass(E.asked.chans, E.asked.base), E.got))
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = At /\ UNCHANGED <<vars, bad, skip>>
TStep == TReset \/ TCrash \/ TStart \/ TOpen \/ TClose \/ TParsed \/ TRefused \/ TListed \/ TSkip
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep /\ l' = At /\ skip' = TRUE
        /\ Note(Fail(At, "X.history", "a step of the specification", E)) /\ UNCHANGED vars
TNext == TStep \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
