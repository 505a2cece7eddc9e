------------------------- MODULE TaskFrameworkTrace -------------------------
(* Is a recorded history of real task calls a behaviour of TaskFramework?
   Events: Reset; Call [inst, args, out = "ran"/"rejected", seen, error];
   Look [seen]; End [ret]; Raise [error].                                   *)
EXTENDS TaskFramework, Conformance
VARIABLES l, bad, skip   \* skip: the rest of a diverged history is not judged
TInit == Init /\ l = 0 /\ bad = <<>> /\ skip = FALSE
E == Log[l + 1]
Args == IF E.n = 0 THEN [x \in {} |-> "none"] ELSE E.args
SeenGot == IF E.m = 0 THEN [x \in {} |-> "none"] ELSE E.seen
Is(e) == l < Len(Log) /\ ~skip /\ E.ev = e /\ l' = l + 1
Note(d) == bad' = bad \o d /\ skip' = (d # <<>>)
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = l + 1 /\ stack' = <<>> /\ calls' = 0
          /\ obs' = [ev |-> "Init"] /\ skip' = FALSE /\ UNCHANGED bad
TBegin == /\ Is("Call") /\ Begin(E.inst, Args)
          /\ Note(IF E.out = "ran" THEN DiffT(l + 1, "C20.seen", obs'.seen, SeenGot)
                  ELSE Fail(l + 1, "C20.accepted", "executed", E.error))
TReject == /\ Is("Call") /\ Reject(E.inst, Args)
           /\ Note(IF E.out = "ran" THEN Fail(l + 1, "C20.rejected", "ValueError without executing", "executed")
                   ELSE Diff(l + 1, "C20.rejected", obs'.error, E.error))
TLook == Is("Look") /\ Look /\ Note(DiffT(l + 1, "C20.seen", obs'.seen, SeenGot))
TEnd == Is("End") /\ End /\ Note(Diff(l + 1, "C20.returned", obs'.ret, E.ret))
TRaise == Is("Raise") /\ Raise /\ Note(Diff(l + 1, "C20.raised", obs'.error, E.error))
TStep == TReset \/ TBegin \/ TReject \/ TLook \/ TEnd \/ TRaise
\* a recorded step that is none of the specification's
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep
        /\ l' = l + 1 /\ Note(Fail(l + 1, "C20.history", "a step of the specification", E.ev)) /\ UNCHANGED vars
TSkip == l < Len(Log) /\ skip /\ E.ev # "Reset" /\ l' = l + 1 /\ UNCHANGED <<vars, bad, skip>>
TNext == TStep \/ TOdd \/ TSkip
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
