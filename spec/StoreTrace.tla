----------------------------- MODULE StoreTrace -----------------------------
(* Recorded files of the real code against Store.
   Open [append], Put [g, nodes], Get [g, entries] (reading group g back),
   Copy [g, entries] (the same after storing what was read)    *)
EXTENDS Store, Conformance
VARIABLES l, bad, skip
TInit == file = <<>> /\ opened = FALSE /\ l = 0 /\ bad = <<>> /\ skip = FALSE
E == Log[l + 1]
At == l + 1
Ev(e) == l < Len(Log) /\ ~skip /\ E.ev = e /\ l' = At
SetOf(q) == {q[i] : i \in 1..Len(q)}
Norm(r) == [path |-> r.path, k |-> r.k, shape |-> r.shape, vals |-> r.vals, unit |-> r.unit, cols |-> r.cols, meta |-> SetOf(r.meta)]
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = At /\ skip' = FALSE /\ file' = <<>> /\ opened' = FALSE /\ UNCHANGED bad
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = At /\ skip' = TRUE /\ UNCHANGED vars
          /\ bad' = bad \o Fail(At, "X.crash", "a result", E.error)
TOpen == Ev("Open") /\ (IF E.append = 1 THEN Reopen ELSE Create) /\ UNCHANGED <<bad, skip>>
TPut == Ev("Put") /\ Put(E.g, E.nodes) /\ UNCHANGED <<bad, skip>>
At1(S, p) == CHOOSE x \in S : x.path = p
Compare(exp, got) ==
    LET ps == {x.path : x \in exp}  qs == {x.path : x \in got} IN
    IF ps \ qs # {} THEN Fail(At, "C17.missing", At1(exp, CHOOSE p \in ps \ qs : TRUE), "nothing there")
    ELSE IF qs \ ps # {} THEN Fail(At, "C17.extra", "nothing there", At1(got, CHOOSE p \in qs \ ps : TRUE))
    ELSE LET wrong == {p \in ps : At1(exp, p) # At1(got, p)} IN
         IF wrong = {} THEN <<>>
         ELSE LET p == CHOOSE q \in wrong : TRUE  a == At1(exp, p)  b == At1(got, p) IN
              Fail(At, IF a.k # b.k THEN "C17.kind" ELSE IF a.unit # b.unit THEN "C17.unit"
                       ELSE IF a.k = "table" THEN (IF a.cols # b.cols THEN "C17.columns" ELSE "C17.metadata")
                       ELSE IF a.shape # b.shape THEN "C17.shape" ELSE "C17.value", a, b)
TGet == /\ Ev("Get") /\ UNCHANGED <<vars, skip>>
        /\ bad' = bad \o Compare(Of(E.g), {Norm(E.entries[i]) : i \in 1..Len(E.entries)})
\* what was read back, stored again in another file and read again
TCopy == /\ Ev("Copy") /\ UNCHANGED <<vars, skip>>
         /\ bad' = bad \o Compare(Of(E.g), {Norm(E.entries[i]) : i \in 1..Len(E.entries)})
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = At /\ UNCHANGED <<vars, bad, skip>>
TStep == TReset \/ TCrash \/ TOpen \/ TPut \/ TGet \/ TCopy \/ TSkip
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep /\ l' = At /\ skip' = TRUE
        /\ bad' = bad \o Fail(At, "X.history", "a step of the specification", E) /\ UNCHANGED vars
TNext == TStep \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
