--------------------------- MODULE TargetTableMC ---------------------------
EXTENDS TargetTable, TLC
VARIABLES n, hist      \* merged so far
Tab(cs, k, v, m) == [cols |-> cs, rows |-> [i \in 1..k |-> [c \in {cs[j] : j \in 1..Len(cs)} |-> 10 * v + i]], meta |-> m]
Metas == {[k \in {} |-> 0], [k \in {"name"} |-> "x"], [k \in {"name", "v"} |-> "y"]}
ColSeqs == {<<"a">>, <<"b", "a">>, <<"b">>, <<"c", "b">>}
Chans == {<<Tab(c, k, 1, m)>> : c \in ColSeqs, k \in 1..2, m \in Metas} \cup
         {<<Tab(c, k, 1, m), Tab(d, j, 2, m)>> : c \in ColSeqs, d \in ColSeqs, k \in 1..2, j \in 0..2, m \in {[k \in {} |-> 0]}}
Asc(C) == CHOOSE s \in [1..Cardinality(C) -> C] : {s[i] : i \in 1..Cardinality(C)} = C
Init == channels = <<>> /\ target = Empty /\ n = 0 /\ hist = <<>>
MPrepare == /\ n = 0 /\ n' = 1 /\ hist' = <<>>
            /\ \E chs \in Chans : Prepare(chs, [cols |-> Asc(AllCols(chs)), rows |-> Stacked(chs), meta |-> Head(chs).meta])
MMerge == /\ n \in 1..2 /\ n' = n + 1
          /\ \E c \in ColSeqs, v \in {5, 6}, m \in Metas :
               LET t == Tab(c, Height(channels), v, m)
               IN hist' = Append(hist, t) /\
                  Merge(t, [cols |-> Asc(MergedCols(target, t)), rows |-> Merged(target, t), meta |-> MergedMeta(target, t)])
Next == MPrepare \/ MMerge
\* every cell comes from the last table merged that has the column, else from
\* the bin's own channel, else it is zero
RECURSIVE Last(_, _, _)
Last(h, i, c) == IF h = <<>> THEN -1
                 ELSE IF c \in ColSet(h[Len(h)]) THEN h[Len(h)].rows[i][c]
                 ELSE Last(SubSeq(h, 1, Len(h) - 1), i, c)
Own(i, c) == LET k == Len(channels[1].rows)
             IN IF i <= k THEN Cell(channels[1], i, c) ELSE Cell(channels[2], i - k, c)
Provenance == n > 0 => \A i \in 1..Len(target.rows), c \in ColSet(target) :
                 target.rows[i][c] = IF Last(hist, i, c) # -1 THEN Last(hist, i, c) ELSE Own(i, c)
Size == n > 0 => Len(target.rows) = Height(channels)
=============================================================================
