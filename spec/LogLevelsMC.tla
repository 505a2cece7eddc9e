----------------------------- MODULE LogLevelsMC -----------------------------
EXTENDS LogLevels
MSet == \E x \in Levels : Set(x)
MDisable == Disable
MEnable == \E x \in Levels : Enable(x)
MAddFile == \E f \in {1, 2} : AddFile(f)
MObserve == \E d \in BOOLEAN : Observe(d)
MPipeline == \E d \in BOOLEAN, f \in {0, 2} : Pipeline(d, f)
Next == MSet \/ MDisable \/ MEnable \/ MAddFile \/ MObserve \/ MPipeline
Spec == Start /\ [][Next]_vars
\* disabling and enabling is no change; files are only added
Back == [][(level' # level /\ off # 0 /\ off' = 0 /\ was' = 0) => level' = off]_vars
Files2 == [][files \subseteq files']_vars
=============================================================================
