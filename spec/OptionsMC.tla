----------------------------- MODULE OptionsMC -----------------------------
EXTENDS Options
CONSTANTS MaxTags, MaxFiles
VARIABLES opened, files
Texts == {<<" ">>, <<"1">>, <<"T", "r", "u", "e">>, <<"@">>}
Init == Idle /\ opened = <<>> /\ files = 0
MStart == /\ files < MaxFiles /\ files' = files + 1 /\ opened' = <<>>
          /\ \E p \in {<<>>, <<"<R>">>} : Start(p)
MOpen == /\ Len(opened) < MaxTags /\ Len(stack) \in 1..3
         /\ \E t \in {"a", "b"}, x \in Texts : Open(t, <<>>, x) /\ opened' = Append(opened, <<Len(stack), t, x>>)
         /\ UNCHANGED files
MPath == /\ Len(stack) = 1 /\ opened = <<>> /\ Open("ConfigPath", <<>>, <<"<F>">>)
         /\ opened' = <<<<1, "ConfigPath", <<"<F>">>>>>> /\ UNCHANGED files
MClose == Close /\ UNCHANGED <<opened, files>>
MFinish == Finish /\ UNCHANGED <<opened, files>>
Next == MStart \/ MOpen \/ MPath \/ MClose \/ MFinish
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + SumSet(S \ {x})
RECURSIVE Total(_), TotalSeq(_)
TotalSeq(s) == IF s = <<>> THEN 0 ELSE 1 + Total(Head(s)) + TotalSeq(Tail(s))
Total(item) == SumSet({<<t, TotalSeq(item.sub[t].items)>> : t \in DOMAIN item.sub})
\* every tag of the file is in the result, once
NothingLost == result # <<>> => Total(result[1]) = Len(opened)
\* repetitions keep the order of the file
TopOrder == result # <<>> => \A t \in DOMAIN result[1].sub :
    LET inFile == SelectSeq(opened, LAMBDA o : o[1] = 1 /\ o[2] = t) IN
    /\ Len(inFile) = Len(result[1].sub[t].items)
    /\ \A i \in 1..Len(inFile) : LET v == result[1].sub[t].items[i].val IN
         (inFile[i][3] = <<"1">> => v = [k |-> "int", m |-> 1]) /\ (inFile[i][3] = <<" ">> => v = None)
         /\ (inFile[i][3] = <<"@">> => v = [k |-> "text", t |-> path])
    /\ (result[1].sub[t].many = 1) = (Len(inFile) > 1)
\* the path given for the run prevails; what an earlier file said does not matter
PathOwn == result # <<>> => path = (IF forced # <<>> THEN forced
                                    ELSE IF \E i \in 1..Len(opened) : opened[i][2] = "ConfigPath" THEN <<"<F>">> ELSE <<>>)
ASSUME /\ Value(<<"-", "1", ".", "2", "0", "e", "2">>, <<>>, <<>>) = [k |-> "float", m |-> -12, e |-> 1]
       /\ Value(<<".", "5">>, <<>>, <<>>) = [k |-> "float", m |-> 5, e |-> -1]
       /\ Value(<<"e", "5">>, <<>>, <<>>).k = "text" /\ Value(<<"5", ".">>, <<>>, <<>>) = [k |-> "float", m |-> 5, e |-> 0]
       /\ Value(<<".">>, <<>>, <<>>).k = "text" /\ Value(<<"0", "0">>, <<>>, <<>>) = [k |-> "int", m |-> 0]
=============================================================================
