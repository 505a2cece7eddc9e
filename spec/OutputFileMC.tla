----------------------------- MODULE OutputFileMC -----------------------------
EXTENDS OutputFile
CONSTANT MAXT
X1 == <<"in", "p1.xml">>
X2 == <<"in", "p2.xml">>
L1 == <<"in", "l1.csv">>
H == {<<"in", "run.h5">>, <<"a", "run.h5">>}
Opts == {X1, X2} \cup H
MSetup == conf = <<>> /\ Setup([pays |-> <<<<"A">>, <<"B", "C">>>>, lists |-> <<<<1>>>>],
                                [f \in {X1, X2, L1} |-> IF f = L1 THEN Text("csv", 1) ELSE Text("xml", IF f = X1 THEN 1 ELSE 2)])
MWrite == conf # <<>> /\ \E f \in H, a \in BOOLEAN : Write(f, a, "g", 1)
MPrepare == conf # <<>> /\ Len(mem) < MAXT /\ \E f \in Opts, o \in H \cup {<<>>} : f \in DOMAIN disk /\ Prepare(f, o)
MObserve == \E k \in DOMAIN mem : Observe(k, 1)
MRebuild == \E k \in DOMAIN mem : Rebuild(k)
MPipeline == conf # <<>> /\ \E f \in Opts, o \in H \cup {X1}, r \in BOOLEAN : f \in DOMAIN disk /\ (o = X1 => f = X1) /\ Pipeline(f, L1, o, r, 0, FALSE)
\* the extreme ways of failing: nothing done; a file to be replaced discarded
MFails == conf # <<>> /\ \E f \in Opts, o \in H \cup {X1, L1}, r \in BOOLEAN : f \in DOMAIN disk /\ (o = X1 => f = X1) /\
            \/ PipelineFails(f, L1, o, r, 0, disk)
            \/ PipelineFails(f, L1, o, r, 0, Without(disk, o))
Next == MSetup \/ MWrite \/ MPrepare \/ MObserve \/ MRebuild \/ MPipeline \/ MFails
Spec == Nothing /\ [][Next]_vars
=============================================================================
