------------------------------- MODULE SignalMC -------------------------------
EXTENDS Signal
CONSTANT MAXN
In(f, un, sh) == [form |-> f, unit |-> un, shape |-> sh,
                  vals |-> [i \in 1..(CASE Len(sh) = 1 -> sh[1] [] Len(sh) = 2 -> sh[1] * sh[2] [] OTHER -> sh[1] * sh[2] * sh[3]) |-> i]]
Grids == {<<n>> : n \in 1..MAXN} \cup {<<MAXN, 1>>}
Datas == {<<n>> : n \in 1..MAXN} \cup {<<n, m>> : n \in 1..MAXN, m \in 1..MAXN} \cup {<<MAXN, 1, 1>>}
WL == {In("quantity", x, g) : x \in {"um", "nm", "s"}, g \in Grids} \cup {In("list", "", g) : g \in Grids}
DT(kind) == {In("quantity", x, g) : x \in {Fixed(kind, "data"), "mol"}, g \in Datas} \cup {In("array", "", g) : g \in Datas}
TM == {In("quantity", x, g) : x \in {"h", "s", "um"}, g \in Grids} \cup {In("array", "", g) : g \in Grids}
Kinds == {"Signal", "CountsPerSeconds", "Noise", "Sed", "Radiance", "CustomSignal"}
MCreate == Len(made) < 1 /\ \E k \in Kinds : \E w \in WL, d \in DT(k), t \in TM : Create(k, w, d, t)
MRefuse == Len(made) < 1 /\ \E k \in Kinds : \E w \in WL, d \in DT(k), t \in TM : Refuse(k, w, d, t)
Next == MCreate \/ MRefuse
Spec == made = <<>> /\ [][Next]_vars
=============================================================================
