-------------------------- MODULE OpticalPathTrace --------------------------
(* Recorded channels built by the real code against OpticalPath.
   Channel [path, chan]            the description of a built channel
   Pass    [got]                   a column of its transmission table
   Built   [elements, emitters, rad, total, data, bins]   radiances, transmissions
   Class   [got]                   how each emitter's signal was collected
   Diffuse [got]                   same for foreground light
   Sums    [rows]                  totals and parts of rows, scaled
   Full    [rows, chans]           target table rows in both output modes     *)
EXTENDS OpticalPath, Conformance
VARIABLES l, bad, skip
tv == <<l, bad, skip>>
TInit == /\ path = <<>> /\ k = 0 /\ lights = <<>> /\ total = [z \in Zones |-> 0]
         /\ chan = [lo |-> 1, hi |-> 1, force |-> "False"] /\ l = 0 /\ bad = <<>> /\ skip = FALSE
E == Log[l + 1]
At == l + 1
Is(e) == l < Len(Log) /\ ~skip /\ E.ev = e /\ l' = At
Note(d) == bad' = bad \o d
Keep == UNCHANGED <<vars, skip>>

TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = At /\ skip' = FALSE /\ UNCHANGED <<vars, bad>>
\* the real code failed on a payload it has to accept
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = At /\ skip' = TRUE /\ UNCHANGED vars
          /\ Note(Fail(At, "X.crash", "a result", E.error))
TChannel == Is("Channel") /\ Start(E.path, E.chan) /\ UNCHANGED <<bad, skip>>
TPass == Is("Pass") /\ PassElement /\ UNCHANGED skip
         /\ Note(Diff(At, "C02.element", [z \in Zones |-> Trans(path[k + 1], z)], E.got))
TBuilt == /\ Is("Built") /\ Done /\ Keep
          /\ Note(Diff(At, "C02.elements", Len(path), E.elements)
               \o Diff(At, "C01.emitters", [i \in 1..Len(lights) |-> lights[i].el], E.emitters)
               \o (IF Len(E.rad) # Len(lights) THEN <<>>
                   ELSE Diff(At, "C01.radiance", [i \in 1..Len(lights) |-> lights[i].rad], E.rad))
               \o Diff(At, "C02.total", total, E.total)
               \o Diff(At, "C02.applied", [z \in Zones |-> Applied(z)], E.data)
               \o Diff(At, "C02.bins", [i \in 1..Len(E.bins) |-> <<E.bins[i][1], Applied(E.bins[i][1])>>], E.bins))
TClass == Is("Class") /\ Done /\ Keep
          /\ Note(Diff(At, "C03.class", [i \in 1..Len(lights) |-> Class(lights[i])], E.got)
               \o Diff(At, "C03.max", [i \in 1..Len(lights) |-> Class(lights[i])], E.gotmax))
TDiffuse == Is("Diffuse") /\ Done /\ Keep /\ Note(Diff(At, "C03.foreground", ForegroundClass, E.got))

RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
Near(a, b, n) == LET d == a - b IN d <= n + 1 /\ -d <= n + 1
\* parts and total of one row, in units small enough that rounding of each
\* part is at most one unit
RowOK(r) == Near(SumOf(r.parts), r.total, Len(r.parts))
TSums == Is("Sums") /\ Done /\ Keep
         /\ Note((IF E.n = Len(lights) THEN <<>> ELSE Fail(At, "C04.parts", Len(lights), E.n))
              \o (IF \A i \in 1..Len(E.rows) : RowOK(E.rows[i]) THEN <<>>
                  ELSE Fail(At, "C04.total", "sum of the parts", E.rows[CHOOSE i \in 1..Len(E.rows) : ~ RowOK(E.rows[i])]))
              \o (IF \A i \in 1..Len(E.maxrows) : RowOK(E.maxrows[i]) THEN <<>>
                  ELSE Fail(At, "C04.maximum", "sum of the parts", E.maxrows[CHOOSE i \in 1..Len(E.maxrows) : ~ RowOK(E.maxrows[i])])))

\* a row of the target table with full contributions: [own (parts of the built
\* channel, by emitter name), cols (columns found), plain (total without),
\* a, b (other values in both modes)]
Zip(names, vals) == [n \in {names[i] : i \in 1..Len(names)} |-> vals[CHOOSE i \in 1..Len(names) : names[i] = n]]
FullRow(r, allnames) ==
    /\ {r.colnames[i] : i \in 1..Len(r.colnames)} = allnames
    /\ Len(r.colnames) = Cardinality(allnames)
    /\ LET c == Zip(r.colnames, r.cols)
           o == Zip(r.ownnames, r.own)
       IN \A n \in allnames : IF n \in DOMAIN o THEN Near(c[n], o[n], 1) ELSE c[n] = 0
    /\ Near(SumOf(r.cols), r.plain, Len(r.cols))
SameRow(r) == \A i \in 1..Len(r.a) : Near(r.a[i], r.b[i], 1)
AllNames(rows) == UNION {{rows[i].ownnames[j] : j \in 1..Len(rows[i].ownnames)} : i \in 1..Len(rows)}
TFull == Is("Full") /\ Keep
         /\ LET R == E.rows
                N == AllNames(R)
                badf == {i \in 1..Len(R) : ~ FullRow(R[i], N)}
                bads == {i \in 1..Len(R) : ~ SameRow(R[i])}
            IN Note((IF badf = {} THEN <<>> ELSE Fail(At, "C04.columns", "one column per emitter with its contribution", R[CHOOSE i \in badf : TRUE]))
                 \o (IF bads = {} THEN <<>> ELSE Fail(At, "C04.unchanged", "same frame time, maximum and noise", R[CHOOSE i \in bads : TRUE]))
                 \o (IF E.hastotal = 0 THEN <<>> ELSE Fail(At, "C04.replaced", "no instrument_signal column", "present")))
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = At /\ UNCHANGED <<vars, bad, skip>>
TStep == TReset \/ TCrash \/ TChannel \/ TPass \/ TBuilt \/ TClass \/ TDiffuse \/ TSums \/ TFull \/ TSkip
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep /\ l' = At /\ skip' = TRUE
        /\ Note(Fail(At, "X.history", "a step of the specification", E)) /\ UNCHANGED vars
TNext == TStep \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
