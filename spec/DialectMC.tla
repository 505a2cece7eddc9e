----------------------------- MODULE DialectMC ------------------------------
EXTENDS Dialect
W(k, n, d, un, f) == [kind |-> k, amount |-> <<n, d>>, unit |-> un, form |-> f]
D == (<<"common", "atel">> :> W("area", 1, 2, "m2", "number")) @@ (<<"A", "pix">> :> W("length", 3, 1, "um", "number"))
     @@ (<<"A", "qe">> :> W("number", 1, 2, "one", "number")) @@ (<<"B", "ft">> :> W("time", 3, 2, "min", "number"))
MDescribe == desc = <<>> /\ Describe(D, <<"A", "B">>)
MReword == \E p \in DOMAIN desc : \E un \in DOMAIN Units[desc[p].kind] : Reword(p, un)
MReform == \E p \in DOMAIN desc : \E f \in {"number", "table"} : desc[p].kind = "number" /\ Reform(p, f)
MArrange == desc # <<>> /\ \E o \in {<<"A">>, <<"B", "A">>, <<"A", "B">>} : Arrange(o)
MAlter == \E p \in DOMAIN desc : \E f \in {<<2, 1>>, <<1, 2>>} : Value(desc[p])[1] <= 1500 /\ Value(desc[p])[2] <= 2 /\ Alter(p, f[1], f[2])
\* what a channel shows is a function of its meaning
Shown(c) == {<<x[1][2], x[2]>> : x \in Meaning(c)}
MObserve == desc # <<>> /\ Cardinality(known) < 3 /\ Observe([c \in {"A", "B"} |-> Shown(c)])
Next == MDescribe \/ MReword \/ MReform \/ MArrange \/ MAlter \/ MObserve
Spec == Nowhere /\ [][Next]_vars
\* a channel left as it is, whatever is said of the others, keeps what was seen of it
Own == [][\A c \in {"A", "B"} : (desc # <<>> /\ \A p \in DOMAIN desc : p[1] \in {"common", c} => Value(desc'[p]) = Value(desc[p])) => Meaning(c)' = Meaning(c)]_vars
Small == TLCGet("level") < 6
=============================================================================
