---------------------------- MODULE TargetTable ----------------------------
(* Tables: [cols (sequence of column names with units), rows (sequence of
   functions from those names to values), meta (function from keys to values)].
   Text cells and numbers are opaque values; 0 is numeric zero.

   channels   the channels' tables, in payload order
   target     the target's table, the result of the steps so far              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES channels, target
vars == <<channels, target>>
Empty == [cols |-> <<>>, rows |-> <<>>, meta |-> [k \in {} |-> 0]]
ColSet(t) == {t.cols[i] : i \in 1..Len(t.cols)}
Cell(t, i, c) == IF c \in ColSet(t) THEN t.rows[i][c] ELSE 0
RECURSIVE Height(_)
Height(ts) == IF ts = <<>> THEN 0 ELSE Len(Head(ts).rows) + Height(Tail(ts))
RECURSIVE RowsOf(_, _)
RowsOf(ts, C) == IF ts = <<>> THEN <<>>
                 ELSE [i \in 1..Len(Head(ts).rows) |-> [c \in C |-> Cell(Head(ts), i, c)]] \o RowsOf(Tail(ts), C)
AllCols(ts) == UNION {ColSet(ts[i]) : i \in 1..Len(ts)}
\* rows of stacked tables: all columns, zero where a table has no such column
Stacked(ts) == RowsOf(ts, AllCols(ts))
\* the same content, whatever the order of the columns
SameContent(t, C, R) == ColSet(t) = C /\ Cardinality(C) = Len(t.cols) /\ t.rows = R
\* what a merge gives
MergedCols(a, b) == ColSet(a) \cup ColSet(b)
Merged(a, b) == [i \in 1..Len(a.rows) |-> [c \in MergedCols(a, b) |-> IF c \in ColSet(b) THEN b.rows[i][c] ELSE a.rows[i][c]]]
MergedMeta(a, b) == [k \in DOMAIN a.meta \cup DOMAIN b.meta |-> IF k \in DOMAIN b.meta THEN b.meta[k] ELSE a.meta[k]]

\* steps; got is the table they leave
Prepare(chs, got) == channels' = chs /\ target' = got
Merge(res, got) == target' = got /\ UNCHANGED channels
=============================================================================
