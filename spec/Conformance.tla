---------------------------- MODULE Conformance ----------------------------
(* Shared idioms of the trace specifications: the recorded log, the verdict. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

Has(r, f) == f \in DOMAIN r

\* a mismatch between what the specification expects and what was recorded
Diff(l, clause, exp, got) ==
    IF exp = got THEN <<>>
    ELSE << [line |-> l, clause |-> clause, exp |-> ToString(exp), got |-> ToString(got)] >>

DiffT(l, clause, exp, got) ==   \* operands possibly of different types
    IF ToString(exp) = ToString(got) THEN <<>>
    ELSE << [line |-> l, clause |-> clause, exp |-> ToString(exp), got |-> ToString(got)] >>

Fail(l, clause, exp, got) ==
    << [line |-> l, clause |-> clause, exp |-> ToString(exp), got |-> ToString(got)] >>

Verdict(consumed, bad) ==
    PrintT("VERDICT " \o ToJson([consumed |-> consumed, bad |-> bad]))
=============================================================================
