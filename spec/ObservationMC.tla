---------------------------- MODULE ObservationMC ----------------------------
EXTENDS Observation
P == <<[frgs |-> <<>>, R |-> 61, needs |-> {"R"}], [frgs |-> <<"zodi">>, R |-> 97, needs |-> {"R", "T"}],
       [frgs |-> <<"dust", "zodi">>, R |-> 97, needs |-> {"R"}]>>
T == <<[has |-> {"R", "T"}, kind |-> 1], [has |-> {"R"}, kind |-> 2]>>
Init == Nothing
MSetup == pays = <<>> /\ Setup(P, T)
MStep == pays # <<>> /\ \E t \in 1..2, p \in 1..3, i \in 1..6 : Step(t, p, i)
MObserve == pays # <<>> /\ \E t \in 1..2, p \in 1..3 : Observe(t, p)
\* few different results and files, or there are too many states
MList == pays # <<>> /\ given = <<>> /\ \E ts \in {<<1>>, <<2, 1>>}, p \in 1..3, w \in 1..2 : ObserveList(ts, p, w)
MFail == pays # <<>> /\ \E w \in 1..2 : ObserveList(<<2>>, 2, w)
MPipeline == pays # <<>> /\ \E ts \in {<<1>>, <<2, 1>>}, p \in 2..3 : Pipeline(ts, p, 1)
MBrighten == pays # <<>> /\ Brighten(1)
Next == MBrighten \/ MSetup \/ MStep \/ MObserve \/ MList \/ MFail \/ MPipeline
=============================================================================
