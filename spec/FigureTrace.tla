----------------------------- MODULE FigureTrace -----------------------------
(* Recorded figures of the real code against Figure.
     Given [table, chans]      what is there to be drawn
     Draw [what, panes, same]  a figure made; panes: <<[lines: <<[label, xs, ys]>>, bands: <<<<lo, hi>>>>]>>,
                               same: whether table and channels are what they were
     Observed [asked, got]     a list of targets observed with plots and no place for them
     Asked [names, asked, refused, plotted]   the plotting command told which targets of a file to plot
     Save [what, file, wrote, panes, same]   a figure saved: whether there is a file, and what is in it
   The lines and bands drawn are the specification's own steps.                    *)
EXTENDS Figure, Conformance
VARIABLES l, bad, skip
TInit == Init /\ l = 0 /\ bad = <<>> /\ skip = FALSE
E == Log[l + 1]
Here == l + 1
Ev(e) == l < Len(Log) /\ ~skip /\ E.ev = e
Note(d) == bad' = bad \o d
SetOf(q) == {q[i] : i \in 1..Len(q)}
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = Here /\ skip' = FALSE /\ UNCHANGED bad
          /\ table' = Blank /\ chans' = <<>> /\ page' = "none" /\ lines' = {} /\ bands' = {} /\ made' = {} /\ files' = [f \in {} |-> <<>>]
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = Here /\ skip' = TRUE /\ UNCHANGED vars
          /\ Note(Fail(Here, "X.crash", "a figure", E.error))
TGiven == Ev("Given") /\ l' = Here /\ Given(E.table, E.chans) /\ UNCHANGED <<bad, skip>>
\* what is on the page when it is full
Missing == AllLines \ lines
Step == Line \/ Curve \/ Band
Want(w) == IF w = "efficiency" THEN chans # <<>> ELSE TRUE
TBegin == Ev("Draw") /\ page = "none" /\ Want(E.what) /\ Begin(E.what) /\ UNCHANGED <<l, bad, skip>>
\* one order of drawing is as good as any
TLine == Ev("Draw") /\ page \in {"signals", "noises", "table"} /\ lines # AllLines
         /\ lines' = lines \cup {CHOOSE x \in Missing : TRUE} /\ UNCHANGED <<table, chans, page, bands, made, files, l, bad, skip>>
TCurve == Ev("Draw") /\ page = "efficiency" /\ lines # AllLines
          /\ lines' = lines \cup {CHOOSE x \in Missing : TRUE} /\ UNCHANGED <<table, chans, page, bands, made, files, l, bad, skip>>
TBand == Ev("Draw") /\ page # "none" /\ lines = AllLines /\ bands # AllBands
         /\ bands' = bands \cup {CHOOSE x \in AllBands \ bands : TRUE} /\ UNCHANGED <<table, chans, page, lines, made, files, l, bad, skip>>
\* a pane that was drawn is the one of the specification with these lines
LineIs(x, g) == x.label = g.label /\ x.xs = g.xs /\ Len(x.ys) = Len(g.ys) /\ \A i \in 1..Len(g.ys) : Close(x.ys[i], g.ys[i], 3)
PaneIs(p, g) == LET L == {x \in lines : x.pane = p} IN
                 /\ Len(g.lines) = Cardinality(L) /\ \A x \in L : \E i \in 1..Len(g.lines) : LineIs(x, g.lines[i])
CurveBag(k) == LET b == <<Through_(chans[k]), chans[k].q, Both(chans[k])>> IN b
RECURSIVE Bags(_)
Bags(k) == IF k = 0 THEN <<>> ELSE Bags(k - 1) \o CurveBag(k)
CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
EffIs(g) == LET got == [i \in 1..Len(g.lines) |-> g.lines[i].ys] want == Bags(Len(chans)) IN
            Len(got) = Len(want) /\ \A i \in 1..Len(want) : CountIn(got, want[i]) = CountIn(want, want[i])
\* channels may coincide in their bands
BandsIs(p, g) == SetOf(g.bands) = {<<b[2], b[3]>> : b \in {b \in bands : b[1] = p}} /\ Len(g.bands) = Cardinality(Names)
Shape(panes, w) == IF w = "table" THEN Len(panes) = 2 ELSE Len(panes) = 1
Lines_(panes) == [i \in 1..Len(panes) |-> {panes[i].lines[j].label : j \in 1..Len(panes[i].lines)}]
Page(panes, w) ==
    IF ~Shape(panes, w) THEN Fail(Here, "C33.panes", w, Len(panes))
    ELSE IF w = "efficiency" THEN
        (IF EffIs(panes[1]) THEN <<>> ELSE Fail(Here, "C33.efficiency", Bags(Len(chans)), [i \in 1..Len(panes[1].lines) |-> panes[1].lines[i].ys]))
        \o (IF BandsIs("efficiency", panes[1]) THEN <<>> ELSE Fail(Here, "C33.bands", bands, panes[1].bands))
    ELSE LET P(q) == IF w = "table" THEN (IF q = "signals" THEN panes[1] ELSE panes[2]) ELSE panes[1]
             One(q) == (IF PaneIs(q, P(q)) THEN <<>> ELSE Fail(Here, "C33." \o q, {x \in lines : x.pane = q}, P(q).lines))
                       \o (IF BandsIs(q, P(q)) THEN <<>> ELSE Fail(Here, "C33.bands", bands, P(q).bands))
         IN (IF "signals" \in Panes THEN One("signals") ELSE <<>>) \o (IF "noises" \in Panes THEN One("noises") ELSE <<>>)
TDrawn == /\ Ev("Draw") /\ Full /\ l' = Here /\ Finish /\ UNCHANGED skip
          /\ Note(Page(E.panes, page) \o Diff(Here, "C33.same", 1, E.same))
\* nothing to draw the efficiency of: an error message, no figure
TNone == /\ Ev("Draw") /\ page = "none" /\ ~Want(E.what) /\ l' = Here /\ UNCHANGED <<vars, skip>>
         /\ Note(Diff(Here, "C33.panes", 0, Len(E.panes)) \o Diff(Here, "C33.same", 1, E.same))
TSave == /\ Ev("Save") /\ page = "none" /\ l' = Here /\ Save(E.file, E.what) /\ UNCHANGED skip
         /\ Note(Diff(Here, "C33.saved", IF E.what \in made THEN 1 ELSE 0, E.wrote) \o Diff(Here, "C33.same", 1, E.same))
\* what is observed does not depend on plots that cannot be saved
TObserved == /\ Ev("Observed") /\ l' = Here /\ UNCHANGED <<vars, skip>> /\ Note(Diff(Here, "C33.lost", E.asked, E.got))
TAsked == /\ Ev("Asked") /\ l' = Here /\ UNCHANGED <<vars, skip>>
          /\ Note(Diff(Here, "C33.asked", Choice(E.names, E.asked), SetOf(E.plotted))
                  \o Diff(Here, "C33.refused", IF E.asked.how = "both" THEN 1 ELSE 0, E.refused))
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = Here /\ UNCHANGED <<vars, bad, skip>>
TStep == TReset \/ TCrash \/ TGiven \/ TBegin \/ TLine \/ TCurve \/ TBand \/ TDrawn \/ TNone \/ TSave \/ TObserved \/ TAsked \/ TSkip
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep /\ l' = Here /\ skip' = TRUE
        /\ Note(Fail(Here, "X.history", "a step of the specification", E)) /\ UNCHANGED vars
TNext == TStep \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
