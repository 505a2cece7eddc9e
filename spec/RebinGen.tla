------------------------------ MODULE RebinGen ------------------------------
(* random signals and chains of resamplings for the real code *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization, SequencesExt
CONSTANT N
VARIABLE c
R(S) == RandomElement(S)
Asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
\* as a set of n points from a in steps s, some of them missing
Points(a, s, n, miss) == {a + s * i : i \in 0..(n-1)} \ RandomSubset(miss, {a + s * i : i \in 1..(n-2)})
Shuffle(q) == [i \in 1..Len(q) |-> LET h == (Len(q) + 1) \div 2 IN IF i <= h THEN q[2 * i - 1] ELSE q[2 * (i - h)]]
Order(q, o) == IF o = 1 THEN q ELSE IF o = 2 THEN Reverse(q) ELSE Shuffle(q)
Dirty(q, k, v) == IF k = 0 THEN q ELSE InsertAt(q, R(1..Len(q)), v)
Grid(fine, odd) ==
    CHOOSE g \in { Dirty(Dirty(Order(Asc(S), R({1, 1, 2, 3})), IF R(1..4) = 1 THEN 1 ELSE 0, 0),
                         IF R(1..4) = 1 THEN 1 ELSE 0, R(S))
                   : S \in { LET n == IF fine THEN R(12..60) ELSE R(2..9)
                             IN Points(IF odd THEN R({11, 21, 51, 101}) ELSE R({8, 16, 40, 48, 104}),
                                       IF fine THEN R({2, 2, 4, 6}) ELSE R({8, 16, 24, 40}), n,
                                       IF n > 4 /\ R(1..2) = 1 THEN R(1..2) ELSE 0) } } : TRUE
Data(g) == CHOOSE d \in { IF k = 1 THEN [i \in 1..Len(g) |-> 7000] ELSE [i \in 1..Len(g) |-> r[g[i]]]
                          : k \in {R(1..3)}, r \in {TLCEval([x \in {g[j] : j \in 1..Len(g)} |-> 1000 * R(0..90)])} } : TRUE
Req(z0) == [x |-> IF R(1..3) = 1 THEN Grid(TRUE, FALSE) ELSE IF R(1..8) = 1 THEN <<R({16, 24, 40, 56})>> ELSE Grid(FALSE, FALSE),
        unit |-> IF R(1..8) = 1 THEN "nm" ELSE "um"]
Init == \E i \in 1..N : \E g \in {IF R(1..2) = 1 THEN Grid(TRUE, TRUE) ELSE Grid(FALSE, R({TRUE, FALSE}))} :
          \E n \in {R(1..3)} :
          c = [id |-> i, grid |-> g, data |-> Data(g), kind |-> R({"signal", "sed", "counts", "function", "plain"}),
               reqs |-> [j \in 1..n |-> Req(0)]]
Next == UNCHANGED c
Out == PrintT("CASE " \o ToJson(c))
=============================================================================
