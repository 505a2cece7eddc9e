------------------------------- MODULE StoreMC -------------------------------
EXTENDS Store
N(nm, k, vals, unit, kids) == [name |-> nm, k |-> k, n |-> IF k \in {"array", "list", "quantity", "signal"} THEN Len(vals) ELSE 0, m |-> 0, vals |-> vals, unit |-> unit,
                               kids |-> kids, wl |-> vals, cols |-> <<>>, meta |-> <<>>]
Leaves == {N("a", "scalar", <<"1">>, "", <<>>), N("b", "quantity", <<"1", "2">>, "m", <<>>), N("c", "text", <<"x">>, "", <<>>),
           N("b", "signal", <<"1">>, "K", <<>>), N("a", "table", <<>>, "", <<>>)}
Trees == {<<x>> : x \in Leaves} \cup {<<N("d", "dict", <<>>, "", <<x>>)>> : x \in Leaves} \cup {<<N("d", "odict", <<>>, "", <<x, N("z", "bool", <<"0">>, "", <<>>)>>)>> : x \in Leaves} \cup {<<N("d", "tag", <<"5">>, "K", <<x>>)>> : x \in Leaves}
Init == file = <<>> /\ opened = FALSE
MCreate == Create
MReopen == Reopen
MPut == \E g \in {"g", "h"}, t \in Trees : Put(g, t)
Next == MCreate \/ MReopen \/ MPut
Spec == Init /\ [][Next]_vars
=============================================================================
