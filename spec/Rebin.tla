------------------------------- MODULE Rebin -------------------------------
(* A sampled function and what resampling it onto another grid gives.

   grid, data   the samples: wavelengths (integers, 0 = not a number, in any
                order, possibly repeated with the same value) and values
   unit         the unit of the wavelengths ("um" or "nm")

   Rebin(x, u): x in another unit is rejected. If the new points are further
   apart than all samples around them, each gets the mean of the samples in its
   bin (bins divided halfway between points, reaching a quarter of a spacing
   beyond the outermost points), 0 if there are none. Otherwise each gets the
   linear interpolation of the neighbouring samples, 0 outside of them.       *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES grid, data, unit
vars == <<grid, data, unit>>

Pts(x) == {x[i] : i \in 1..Len(x)} \ {0}
Min(S) == CHOOSE a \in S : \A b \in S : a <= b
Max(S) == CHOOSE a \in S : \A b \in S : a >= b
Abs(a) == IF a < 0 THEN -a ELSE a
Below(S, p) == {q \in S : q < p}
Above(S, p) == {q \in S : q > p}
Gap(S, p) == Min(Above(S, p)) - p        \* to the next point
Gaps(S) == {Gap(S, p) : p \in S \ {Max(S)}}
Sample(g) == data[CHOOSE i \in 1..Len(grid) : grid[i] = g]

\* samples that decide: those around the new points
Around(P) == {g \in Pts(grid) : 10 * g > 9 * Min(P) /\ 10 * g < 11 * Max(P)}
Coarser(P) == /\ Cardinality(P) > 1 /\ Cardinality(Around(P)) > 1
              /\ Max(Gaps(Around(P))) < Min(Gaps(P))

\* four times the bin's borders
Lower(P, p) == IF Below(P, p) = {} THEN 4 * p - Gap(P, p) ELSE 2 * (Max(Below(P, p)) + p)
Upper(P, p) == IF Above(P, p) = {} THEN 4 * p + (p - Max(Below(P, p))) ELSE 2 * (p + Min(Above(P, p)))
InBin(P, p) == {g \in Pts(grid) : 4 * g >= Lower(P, p) /\
                                  (4 * g < Upper(P, p) \/ (4 * g = Upper(P, p) /\ Above(P, p) = {}))}
RECURSIVE SumOver(_)
SumOver(S) == IF S = {} THEN 0 ELSE LET g == CHOOSE a \in S : TRUE IN Sample(g) + SumOver(S \ {g})

\* numerator and denominator of the new value at point p (0: not a number)
New(P, p) ==
    IF p = 0 THEN <<0, 1>>
    ELSE IF Coarser(P) THEN
        LET T == InBin(P, p) IN IF T = {} THEN <<0, 1>> ELSE <<SumOver(T), Cardinality(T)>>
    ELSE LET S == Pts(grid) IN
         IF p \in S THEN <<Sample(p), 1>>
         ELSE IF Below(S, p) = {} \/ Above(S, p) = {} THEN <<0, 1>>
         ELSE LET a == Max(Below(S, p))
                  b == Min(Above(S, p))
              IN <<Sample(a) * (b - p) + Sample(b) * (p - a), b - a>>
\* v is the new value, up to t units of rounding
Is(P, p, v, t) == LET n == New(P, p) IN Abs(v * n[2] - n[1]) <= t * n[2]

Accepted(u) == u = unit
Fits(x, got, t) == Len(got) = Len(x) /\ LET P == Pts(x) IN \A i \in 1..Len(x) : Is(P, x[i], got[i], t)
RebinTo(x, u, got, t) ==
    /\ Accepted(u) => Fits(x, got, t)
    /\ IF Accepted(u) THEN grid' = x /\ data' = got ELSE UNCHANGED <<grid, data>>
    /\ UNCHANGED unit
=============================================================================
