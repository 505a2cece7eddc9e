---------------------------- MODULE DialectTrace ----------------------------
(* Recorded observations of channels built from descriptions of one instrument:
   Describe [rows, chans], Retell [units], Reword / Alter [sec, name, ...],
   Reform, Mix, Arrange, Observe [tables: <<[chan, cols: <<[name, vals]>>]>>]  *)
EXTENDS Dialect, Conformance
VARIABLES l, bad, skip
TInit == Nowhere /\ l = 0 /\ bad = <<>> /\ skip = FALSE
E == Log[l + 1]
Here == l + 1
Ev(e) == l < Len(Log) /\ ~skip /\ E.ev = e /\ l' = Here
Ok == UNCHANGED <<bad, skip>>
Note(d) == bad' = bad \o d
At == <<E.sec, E.name>>
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = Here /\ skip' = FALSE
          /\ desc' = <<>> /\ order' = <<>> /\ mixing' = 0 /\ known' = {} /\ UNCHANGED bad
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = Here /\ skip' = TRUE /\ UNCHANGED vars
          /\ Note(Fail(Here, "X.crash", "an instrument described", E.error))
Row(i) == E.rows[i]
TDescribe == /\ Ev("Describe") /\ Ok
             /\ Describe([p \in {<<Row(i).sec, Row(i).name>> : i \in 1..Len(E.rows)} |->
                    LET r == Row(CHOOSE i \in 1..Len(E.rows) : Row(i).sec = p[1] /\ Row(i).name = p[2])
                    IN [kind |-> r.kind, amount |-> r.amount, unit |-> r.unit, form |-> r.form]], E.chans)
TRetell == /\ Ev("Retell") /\ Ok
           /\ Retell([p \in DOMAIN desc |-> E.units[CHOOSE i \in 1..Len(E.units) : E.units[i].sec = p[1] /\ E.units[i].name = p[2]].unit])
TReword == Ev("Reword") /\ Ok /\ Reword(At, E.unit)
TReform == Ev("Reform") /\ Ok /\ Reform(At, E.unit)
TMix == Ev("Mix") /\ Ok /\ Mix(E.n)
TArrange == Ev("Arrange") /\ Ok /\ Arrange(E.chans)
TAlter == Ev("Alter") /\ Ok /\ Alter(At, E.n, E.d)
Names(cols) == {cols[i].name : i \in 1..Len(cols)}
Col(cols, n) == cols[CHOOSE i \in 1..Len(cols) : cols[i].name = n].vals
Apart(a, b) == IF Len(a) # Len(b) THEN {0} ELSE {i \in 1..Len(a) : ~Close(a[i], b[i], 4)}
Differ(c, t, was) == {n \in Names(t) \cap Names(was) : Apart(Col(t, n), Col(was, n)) # {}}
Compare(c, t) ==
    LET same == {k \in known : k.of = Meaning(c)}
    IN IF same = {} THEN <<>>
       ELSE LET was == (CHOOSE k \in same : TRUE).table
            IN IF Names(was) # Names(t) THEN Fail(Here, "C31.columns", <<c, Names(was)>>, Names(t))
               ELSE IF Differ(c, t, was) = {} THEN <<>>
               ELSE LET n == CHOOSE n \in Differ(c, t, was) : TRUE
                    IN Fail(Here, "C31.same", <<c, Differ(c, t, was), n, Col(was, n)>>, Col(t, n))
RECURSIVE All(_)
All(i) == IF i > Len(E.tables) THEN <<>> ELSE Compare(E.tables[i].chan, E.tables[i].cols) \o All(i + 1)
TObserve == /\ Ev("Observe") /\ UNCHANGED skip
            /\ Observe([c \in {order[i] : i \in 1..Len(order)} |->
                   LET s == {i \in 1..Len(E.tables) : E.tables[i].chan = c}
                   IN IF s = {} THEN <<>> ELSE E.tables[CHOOSE i \in s : TRUE].cols])
            /\ Note(Diff(Here, "C31.channels", {order[i] : i \in 1..Len(order)}, {E.tables[i].chan : i \in 1..Len(E.tables)}) \o All(1))
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = Here /\ UNCHANGED <<vars, bad, skip>>
TStep == TReset \/ TCrash \/ TDescribe \/ TRetell \/ TReword \/ TReform \/ TMix \/ TArrange \/ TAlter \/ TObserve \/ TSkip
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep /\ l' = Here /\ skip' = TRUE
        /\ Note(Fail(Here, "X.history", "a step of the specification", E)) /\ UNCHANGED vars
TNext == TStep \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
