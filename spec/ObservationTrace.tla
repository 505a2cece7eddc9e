--------------------------- MODULE ObservationTrace ---------------------------
(* Histories of the real code against Observation.
   Recorded results are named by comparison with the same target observed alone
   in a fresh process: the list of the payloads whose result it equals, <<-1>>
   when the columns are not there; 100 more for the result with the star twice as bright.
     Setup    [pays, tgts]
     Step     [t, p, i, out, groups, meta]     one task on one target
     Observe  [t, p, out, groups, meta]
     Brighten [t]                                the loaded spectrum of a target doubled
     List     [ts, p, workers, out, names, res] res: [t, groups, meta] of each returned
     Pipeline [ts, p, out, names, res]          res: [t, same] of each target written
   changed: the payloads that are not as they were prepared
   altered: the results returned for earlier lists that are not as they were  *)
EXTENDS Observation, Conformance
VARIABLES l, bad, skip
TInit == Nothing /\ l = 0 /\ bad = <<>> /\ skip = FALSE
E == Log[l + 1]
At == l + 1
Ev(e) == l < Len(Log) /\ ~skip /\ E.ev = e /\ l' = At
Note(d) == bad' = bad \o d
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = At /\ skip' = FALSE /\ UNCHANGED <<vars, bad>>
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = At /\ skip' = TRUE /\ UNCHANGED vars
          /\ Note(Fail(At, "X.crash", "a result", E.error))
Ran(s) == {s[i] : i \in 1..Len(s)}
TSetup == /\ Ev("Setup") /\ UNCHANGED <<bad, skip>>
          /\ Setup([i \in 1..Len(E.pays) |-> [frgs |-> E.pays[i].frgs, R |-> E.pays[i].R, needs |-> Ran(E.pays[i].needs)]],
                   [i \in 1..Len(E.tgts) |-> [has |-> Ran(E.tgts[i].has), kind |-> i]])

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
GroupSeq == <<"chan", "forelight", "starlight", "noise">>
\* the gain of the star's light a group was computed with
Gain(want, g) == CASE g = "starlight" -> want.starlight[3][4]
                   [] g = "noise" -> (IF want.noise[3] = <<>> THEN 1 ELSE want.noise[3][3][4])
                   [] OTHER -> 1
\* what the table of the specification says against what was found
Found(clause, want, p, groups, other) ==
    Cat([k \in 1..4 |-> LET g == GroupSeq[k] ok == IF want[g] = <<>> THEN {-1} ELSE {p + 100 * (Gain(want, g) - 1)} IN
            IF ok \cap Ran(groups[g]) # {} THEN <<>>
            ELSE Fail(At, clause \o "." \o g, <<"payload", ok>>, groups[g])])
    \o (IF other = <<>> THEN <<>> ELSE Fail(At, clause \o ".columns", "no other columns", other))
Same == (IF E.changed = <<>> THEN <<>> ELSE Fail(At, "C13.payload", "payload and channels unchanged", E.changed))
        \o (IF E.altered = <<>> THEN <<>> ELSE Fail(At, "C13.given", "earlier results unchanged", E.altered))
Touched(t) == tab[t] # None

TObserve == /\ Ev("Observe") /\ Observe(E.t, E.p) /\ UNCHANGED skip
            /\ Note(Same \o (IF Fails(E.t, E.p) THEN (IF E.out = "ok" THEN Fail(At, "C14.rejected", "an error", "a result") ELSE <<>>)
                     ELSE IF E.out # "ok" THEN Fail(At, "C13.observed", "ok", E.out)
                                            \o (IF Touched(E.t) THEN Fail(At, "C15.observed", "ok", E.out) ELSE <<>>)
                     ELSE LET f(c) == Found(c, tab'[E.t], E.p, E.groups, E.other) IN
                          f("C13.table") \o (IF Touched(E.t) THEN f("C15.again") ELSE <<>>)
                          \o (IF E.p \in Ran(E.meta) THEN <<>> ELSE Fail(At, "C13.meta", E.p, E.meta))))
TBrighten == Ev("Brighten") /\ Brighten(E.t) /\ UNCHANGED <<bad, skip>>
TStep == /\ Ev("Step") /\ UNCHANGED skip
         /\ Step(E.t, E.p, E.i)
         /\ LET again == E.i > 1 /\ E.i <= at[E.t][2]
                c == IF again THEN "C15.repeated" ELSE "C13.step" IN
            Note(Same \o (IF E.out # "ok" THEN Fail(At, c, "ok", E.out)
                          ELSE Found(c, tab'[E.t], E.p, E.groups, E.other)))
Result(r, lost) == LET want == Observed(Clean, r.t, E.p).tab
                       f(c) == Found(c, want, E.p, r.groups, r.other) IN
                   f("C13.list") \o (IF lost THEN f("C14.list") ELSE <<>>) \o (IF Touched(r.t) THEN f("C15.list") ELSE <<>>)
                   \o (IF E.p \in Ran(r.meta) THEN <<>> ELSE Fail(At, "C13.list.meta", E.p, r.meta))
TList == /\ Ev("List") /\ ObserveList(E.ts, E.p, E.workers) /\ UNCHANGED skip
         /\ LET lost == Fine(E.ts, E.p) # Ran(E.ts) IN
            Note(Same \o (IF E.out # "ok" THEN Fail(At, "C13.list", "ok", E.out) \o Fail(At, "C14.list", "ok", E.out)
                     ELSE (IF Ran(E.names) = Fine(E.ts, E.p) THEN <<>>
                           ELSE Fail(At, "C14.returned", Fine(E.ts, E.p), E.names) \o Fail(At, "C13.returned", Fine(E.ts, E.p), E.names))
                          \o Cat([i \in 1..Len(E.res) |-> Result(E.res[i], lost)])))
TPipeline == /\ Ev("Pipeline") /\ Pipeline(E.ts, E.p, 1) /\ UNCHANGED skip
             /\ LET lost == Fine(E.ts, E.p) # Ran(E.ts) IN
                Note(Same \o (IF E.out # "ok" THEN Fail(At, "C13.pipeline", "ok", E.out) \o Fail(At, "C14.pipeline", "ok", E.out)
                     ELSE (IF Ran(E.names) = Fine(E.ts, E.p) THEN <<>>
                           ELSE Fail(At, "C14.written", Fine(E.ts, E.p), E.names) \o Fail(At, "C13.written", Fine(E.ts, E.p), E.names))
                          \o Cat([i \in 1..Len(E.res) |-> IF E.res[i].same = "" THEN <<>>
                                    ELSE Fail(At, "C13.written.value", "as alone", E.res[i].same)
                                      \o (IF lost THEN Fail(At, "C14.written.value", "as alone", E.res[i].same) ELSE <<>>)])))
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = At /\ UNCHANGED <<vars, bad, skip>>
TStep2 == TReset \/ TCrash \/ TSetup \/ TObserve \/ TBrighten \/ TStep \/ TList \/ TPipeline \/ TSkip
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep2 /\ l' = At /\ skip' = TRUE
        /\ Note(Fail(At, "X.history", "a step of the specification", E)) /\ UNCHANGED vars
TNext == TStep2 \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
