-------------------------------- MODULE Figure --------------------------------
(* Figures of tables and of channels, drawn one line and one band after another.

   table   [name, rows: <<[ch, wl, lo, hi]>> (tenths of a micron), cols: <<[name, kind, vals]>>]
           kind: "signal" collected light, "total" and "relative" noises relative to
           the star, "absolute" other noises, "other"; the star's own signal is the
           column Star
   chans   efficiency of channels: <<[name, t, q, only]>>, transmission and quantum
           efficiency on plateaus, as exponents of two; only: the plateau of a
           channel that lets through nothing outside its range, or 0
   page    what is being drawn: "none", "signals", "noises", "table", "efficiency"
   lines   what is drawn: a set of [pane, label, xs, ys]
   bands   a set of <<pane, lo, hi>>
   made    the figures finished: a subset of {"table", "efficiency"}
   files   the figures saved: a function from names of files to <<lines, bands>>   *)
EXTENDS Num, FiniteSets
VARIABLES table, chans, page, lines, bands, made, files
vars == <<table, chans, page, lines, bands, made, files>>
Star == "star_signal_inAperture"
Blank == [name |-> "", rows |-> <<>>, cols |-> <<>>]
Nope == <<-1, 0>>

Xs == [i \in 1..Len(table.rows) |-> table.rows[i].wl]
Col(n) == CHOOSE i \in 1..Len(table.cols) : table.cols[i].name = n
\* divided by the star's signal; by nothing it is nothing
By(a, b) == IF a[1] < 0 \/ b[1] <= 0 THEN Nope ELSE IF a[1] = 0 THEN <<0, 0>> ELSE Div(a, b)
Ys(c) == IF c.kind = "absolute" THEN [i \in 1..Len(c.vals) |-> By(c.vals[i], table.cols[Col(Star)].vals[i])] ELSE c.vals
Pane(c) == IF c.kind = "signal" THEN "signals" ELSE "noises"
Panes == IF page = "table" THEN {"signals", "noises"} ELSE {page}
Shown == {i \in 1..Len(table.cols) : table.cols[i].kind # "other" /\ Pane(table.cols[i]) \in Panes}
LineOf(i) == [pane |-> Pane(table.cols[i]), label |-> table.cols[i].name, xs |-> Xs, ys |-> Ys(table.cols[i])]
Names == {table.rows[i].ch : i \in 1..Len(table.rows)}
Of(n) == {i \in 1..Len(table.rows) : table.rows[i].ch = n}
Low(n) == CHOOSE x \in {table.rows[i].lo : i \in Of(n)} : \A i \in Of(n) : x <= table.rows[i].lo
High(n) == CHOOSE x \in {table.rows[i].hi : i \in Of(n)} : \A i \in Of(n) : x >= table.rows[i].hi
BandsOf(p) == {<<p, Low(n), High(n)>> : n \in Names}
\* efficiency: a channel's three lines
Dark == 9999
Through_(c) == [i \in 1..Len(c.t) |-> IF c.only \in {0, i} THEN c.t[i] ELSE Dark]
Both(c) == [i \in 1..Len(c.t) |-> IF c.only \in {0, i} THEN c.t[i] + c.q[i] ELSE Dark]
Three(k) == {[pane |-> "efficiency", label |-> <<k, "transmission">>, xs |-> <<>>, ys |-> Through_(chans[k])],
             [pane |-> "efficiency", label |-> <<k, "qe">>, xs |-> <<>>, ys |-> chans[k].q],
             [pane |-> "efficiency", label |-> <<k, "pce">>, xs |-> <<>>, ys |-> Both(chans[k])]}

Init == table = Blank /\ chans = <<>> /\ page = "none" /\ lines = {} /\ bands = {} /\ made = {} /\ files = [f \in {} |-> <<>>]
Given(t, cs) == table' = t /\ chans' = cs /\ page' = "none" /\ lines' = {} /\ bands' = {} /\ made' = {} /\ UNCHANGED files
Begin(p) == page' = p /\ lines' = {} /\ bands' = {} /\ UNCHANGED <<table, chans, made, files>>
Line == /\ page \in {"signals", "noises", "table"} /\ \E i \in Shown : LineOf(i) \notin lines /\ lines' = lines \cup {LineOf(i)}
        /\ UNCHANGED <<table, chans, page, bands, made, files>>
Curve == /\ page = "efficiency" /\ \E k \in 1..Len(chans) : \E x \in Three(k) : x \notin lines /\ lines' = lines \cup {x}
         /\ UNCHANGED <<table, chans, page, bands, made, files>>
Band == /\ page # "none" /\ \E p \in Panes : \E b \in BandsOf(p) : b \notin bands /\ bands' = bands \cup {b}
        /\ UNCHANGED <<table, chans, page, lines, made, files>>
AllLines == IF page = "efficiency" THEN UNION {Three(k) : k \in 1..Len(chans)} ELSE {LineOf(i) : i \in Shown}
AllBands == UNION {BandsOf(p) : p \in Panes}
Full == page # "none" /\ lines = AllLines /\ bands = AllBands
\* channels are needed for their efficiency; single panes are the caller's own figure
Finish == /\ Full /\ page' = "none" /\ UNCHANGED <<table, chans, lines, bands, files>>
          /\ made' = (IF page = "table" \/ (page = "efficiency" /\ chans # <<>>) THEN made \cup {page} ELSE made)
Save(f, what) == /\ page = "none" /\ UNCHANGED <<table, chans, page, lines, bands, made>>
                 /\ files' = (IF what \in made THEN [g \in DOMAIN files \cup {f} |-> IF g = f THEN <<table.name, what>> ELSE files[g]] ELSE files)
\* targets asked for, of those of a file (in the order written): all, one by name, some by index from 0; not both ways at once
Choice(names, a) ==
    CASE a.how = "all" -> {names[i] : i \in 1..Len(names)}
      [] a.how = "name" -> {a.name} \cap {names[i] : i \in 1..Len(names)}
      [] a.how = "number" -> {names[a.at[k] + 1] : k \in 1..Len(a.at)}
      [] OTHER -> {}
-----------------------------------------------------------------------------
\* every line through every bin
Through == \A x \in lines : x.pane # "efficiency" => Len(x.xs) = Len(table.rows) /\ Len(x.ys) = Len(table.rows)
\* one line per column, and only columns of light and noise
Once == \A x, y \in lines : (x.label = y.label) => x = y
\* bands hold the bins of their channel
Hold == page \in {"signals", "noises", "table"} => \A b \in bands : \E n \in Names : \A i \in Of(n) : b[2] <= table.rows[i].lo /\ table.rows[i].hi <= b[3]
Saved == \A f \in DOMAIN files : files[f][2] \in {"table", "efficiency"}
Kept == [][page # "none" => UNCHANGED <<table, chans>> \/ made' = {}]_vars
=============================================================================
