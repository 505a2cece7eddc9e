------------------------------- MODULE ZodiMC -------------------------------
EXTENDS Zodi
Entry == {[ra |-> a, dec |-> b, coef |-> k] : a \in {0, 2}, b \in {0, 3}, k \in {1, 2}}
Descs == {[map |-> m, factor |-> f, file |-> w] : m \in {"on", "off", "absent"}, f \in {-1, 0, 7}, w \in {"none", "good", "bad"}}
Init == sky = <<>> /\ desc = [map |-> "off", factor |-> -1, file |-> "none"] /\ at = <<>> /\ level = -1
New == sky = <<>> /\ \E n \in 1..2 : \E S \in [1..n -> Entry], d \in Descs, p \in {<<>>, <<0, 0>>, <<1, 1>>, <<2, 4>>} : Point(S, d, p)
Est == sky # <<>> /\ level = -1 /\ Estimate
Next == New \/ Est
=============================================================================
