--------------------------- MODULE TargetTableGen ---------------------------
EXTENDS Integers, Sequences, TLC, Json, Randomization, SequencesExt
CONSTANT N
VARIABLE c
R(S) == RandomElement(S)
Names == {"a", "b ct/s", "d micron", "e", "f ct/s", "chName"}
Metas == {"name", "v", "model"}
Cols(z0) == LET s == SetToSeq(RandomSubset(R(1..4), Names \ {"chName"}))
        IN IF R(1..2) = 1 THEN <<"chName">> \o s ELSE Reverse(s) \o <<"chName">>
Meta(z0) == [k \in RandomSubset(R(0..2), Metas) |-> R(1..9)]
Tab(k, cs) == [cols |-> cs, height |-> k, seed |-> R(1..1000), meta |-> Meta(0)]
ResCols(z0) == SetToSeq(RandomSubset(R(1..3), {"a", "b ct/s", "g ct/s", "h", "Max ct/s"}))
\* a result: one table, or one per channel stacked
Init == \E i \in 1..N : \E n \in {R(1..4)} : \E hs \in {TLCEval([j \in 1..n |-> R(1..5)])} : \E m \in {R(1..4)} :
          c = [id |-> i, units |-> R(0..1), chans |-> [j \in 1..n |-> Tab(hs[j], Cols(0))],
               steps |-> [s \in 1..m |-> IF R(1..2) = 1
                            THEN [kind |-> "one", tabs |-> <<Tab(-1, ResCols(0))>>]
                            ELSE [kind |-> "per", tabs |-> [j \in 1..n |-> Tab(hs[j], ResCols(0))]]]]
Next == UNCHANGED c
Out == PrintT("CASE " \o ToJson(c))
=============================================================================
