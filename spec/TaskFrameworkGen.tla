-------------------------- MODULE TaskFrameworkGen --------------------------
(* random behaviours of TaskFramework as scripts for the real tasks *)
EXTENDS TaskFramework, Json, IOUtils
VARIABLE hist
GInit == Init /\ hist = <<>>
Pick(D) == [x \in D |-> RandomElement(Values)]
Call(i, args) == hist' = Append(hist, [ev |-> "Call", inst |-> i, args |-> args, n |-> Cardinality(DOMAIN args)])
GNext ==
    \/ \E i \in Instances : \E D \in {RandomElement(SUBSET Params(i))} : \E args \in {Pick(D)} :
          Begin(i, args) /\ Call(i, args)
    \/ \E i \in Instances : \E D \in {RandomElement({S \in SUBSET AllParams : ~ S \subseteq Params(i)})} :
          \E args \in {Pick(D)} : Reject(i, args) /\ Call(i, args)
    \/ Look /\ hist' = Append(hist, [ev |-> "Look"])
    \/ End /\ hist' = Append(hist, [ev |-> "End"])
    \/ Raise /\ hist' = Append(hist, [ev |-> "Raise"])
    \/ calls = MaxCalls /\ stack = <<>> /\ obs.ev # "Fin" /\ obs' = [ev |-> "Fin"] /\ UNCHANGED <<stack, calls, hist>>
Out == obs.ev = "Fin" => PrintT("CASE " \o ToJson(hist))
=============================================================================
