------------------------------ MODULE SignalTrace ------------------------------
(* Recorded creations of the real code against Signal.
     Create [kind, wl, data, time, out, got: [wl, data, time] of [unit, shape, vals], inputs]
   got.vals are the values times the denominator of the input's unit; inputs is 1
   when the inputs were left as they were                                          *)
EXTENDS Signal, Conformance
VARIABLES l, bad, skip
TInit == made = <<>> /\ l = 0 /\ bad = <<>> /\ skip = FALSE
E == Log[l + 1]
At == l + 1
Ev(e) == l < Len(Log) /\ ~skip /\ E.ev = e /\ l' = At
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
TReset == l < Len(Log) /\ E.ev = "Reset" /\ l' = At /\ skip' = FALSE /\ made' = <<>> /\ UNCHANGED bad
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = At /\ skip' = TRUE /\ UNCHANGED vars
          /\ bad' = bad \o Fail(At, "X.crash", "a result", E.error)
Told == <<E.kind, E.wl, E.data, E.time>>
PartOf(s, part) == CASE part = "wl" -> s.wl [] part = "data" -> s.data [] OTHER -> s.time
GotOf(part) == CASE part = "wl" -> E.got.wl [] part = "data" -> E.got.data [] OTHER -> E.got.time
TCreate ==
    /\ Ev("Create") /\ UNCHANGED skip
    /\ IF Accepted(E.kind, E.wl, E.data, E.time)
       THEN /\ Create(E.kind, E.wl, E.data, E.time)
            /\ bad' = bad \o (IF E.out # "ok" THEN Fail(At, "C28.accepts", Told, E.out)
                              ELSE LET s == made'[Len(made')] IN
                                   Cat([i \in 1..3 |-> LET p == <<"wl", "data", "time">>[i] g == GotOf(p) x == PartOf(s, p) IN
                                        Diff(At, "C28.unit." \o p, Fixed(E.kind, p), g.unit) \o Diff(At, "C28.shape." \o p, x.shape, g.shape)
                                        \o Diff(At, "C28.value." \o p, <<x.vals, "over", x.den>>, <<g.vals, "over", x.den>>)])
                                   \o Diff(At, "C28.inputs", 1, E.inputs))
       ELSE /\ Refuse(E.kind, E.wl, E.data, E.time)
            /\ bad' = bad \o (IF E.out = "ok" THEN Fail(At, IF Units(E.kind, E.wl, E.data, E.time) THEN "C28.refuses.shape" ELSE "C28.refuses.unit", Told, E.out)
                              ELSE IF E.out # "ValueError" THEN Fail(At, "C28.refusal", <<"ValueError", Told>>, E.out)
                              ELSE Diff(At, "C28.inputs", 1, E.inputs))
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = At /\ UNCHANGED <<vars, bad, skip>>
TNext == TReset \/ TCrash \/ TCreate \/ TSkip
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
