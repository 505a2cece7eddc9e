------------------------------ MODULE RebinMC ------------------------------
(* every chain of resamplings between small grids *)
EXTENDS Rebin, TLC
CONSTANTS Depth
VARIABLES first, n
Grids == {<<4, 8>>, <<8, 4, 6>>, <<4, 5, 6, 7, 8>>, <<4, 0, 6, 6, 9>>, <<5, 7>>, <<12, 4, 8>>, <<6>>, <<1, 2>>, <<3, 5, 7, 9, 11, 13>>, <<0>>}
Init == \E g \in Grids : /\ grid = g /\ unit \in {"um"} /\ n = 0
                         /\ \E f \in [1..14 -> {0, 60}] \cup {[i \in 1..14 |-> 120 * i]} :
                              /\ \A i \in 1..14 : i \notin Pts(g) => (f[i] = 0 \/ f[i] = 120 * i)
                              /\ data = [i \in 1..Len(g) |-> IF g[i] = 0 THEN 0 ELSE f[g[i]]]
        /\ first = data
Go(x, u) == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED first
            /\ LET V == [i \in 1..Len(x) |-> LET w == New(Pts(x), x[i]) IN w[1] \div w[2]]
               IN RebinTo(x, u, V, 1)
Next == \E x \in Grids, u \in {"um", "nm"} : Go(x, u)
\* no new value is beyond the old ones (and zero)
Bounded == \A i \in 1..Len(data) : data[i] >= 0 /\ data[i] <= Max({first[j] : j \in 1..Len(first)} \cup {0})
SameSize == Len(data) = Len(grid)
\* the same grid again, or the same points twice, changes nothing
Same == [][(grid' = grid /\ unit' = unit) => \A i \in 1..Len(grid) : grid[i] # 0 => data'[i] = data[i]]_<<vars, first, n>>
=============================================================================
