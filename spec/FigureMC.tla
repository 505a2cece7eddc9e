------------------------------ MODULE FigureMC ------------------------------
EXTENDS Figure
Row(n, w) == [ch |-> n, wl |-> w, lo |-> w - 1, hi |-> w + 1]
V(a, b, c) == <<Dec(a, 0), Dec(b, 0), Dec(c, 0)>>
C(n, k, v) == [name |-> n, kind |-> k, vals |-> v]
Tables == {[name |-> "x", rows |-> <<Row("Z", 20), Row("Z", 22), Row("A", w)>>,
            cols |-> <<C(Star, "signal", V(4, s, 2)), C("zodi_signal", "signal", V(1, 2, 3)), C("read_noise", "absolute", V(2, 0, 1)), C("total_noise", "total", V(5, 1, 1)), C("QE", "other", V(1, 1, 1))>>] : w \in {5, 21}, s \in {0, 3}}
Chans == {<<>>, <<[name |-> "Z", t |-> <<0, 2>>, q |-> <<1, 1>>, only |-> 2], [name |-> "A", t |-> <<3, 0>>, q |-> <<1, 0>>, only |-> 0]>>}
MGiven == table = Blank /\ \E t \in Tables : \E c \in Chans : Given(t, c)
MBegin == page = "none" /\ table # Blank /\ \E p \in {"signals", "noises", "table", "efficiency"} : (p = "efficiency" => chans # <<>>) /\ Begin(p)
MSave == table # Blank /\ \E w \in {"table", "efficiency"} : Save("f", w)
MNext == MGiven \/ MBegin \/ Line \/ Curve \/ Band \/ Finish \/ MSave
=============================================================================
