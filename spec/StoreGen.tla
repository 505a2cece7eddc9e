------------------------------- MODULE StoreGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, DEPTH
VARIABLE c
R(S) == RandomElement(S)
Ints == {"0", "1", "-3", "42", "123456789012", "7"}
Floats == {"0.1", "-2.5", "1e-300", "6.02e+23", "nan", "inf", "3", "1.5"}
Texts == {"", "x", "two words", "a/b.csv", "True", "1.5", "line\nline", "m**2", "caf&eacute; 3 &micro;m", "0123456789012345678901234567890123456789012345678901234567890123456789"}
Units == {"", "um", "m", "K", "W / (m2 um)", "ct / s", "1 / sr", "h(1/2)", "deg", "arcsec2", "solMass", "pc", "Hz", "%"}
Bases == {"a", "wl min", "data", "x.y", "Value", "units", "a_to_group", "foreground", "ab.c.d"}
Vals(kind, n) == TLCEval([i \in 1..n |-> IF kind = "int" THEN R(Ints) ELSE IF kind = "bool" THEN R({"0", "1"}) ELSE IF kind = "text" THEN R(Texts) ELSE R(Floats)])
Node(name, k, n, m, kind, vals, unit, kids) ==
    [name |-> name, k |-> k, n |-> n, m |-> m, kind |-> kind, vals |-> vals, unit |-> unit, kids |-> kids, cols |-> <<>>, meta |-> <<>>,
     wl |-> TLCEval([i \in 1..n |-> ToString(i * 2)])]
Name(i) == R(Bases) \o ToString(i)
Col(i, n) == \* a column of a table
    CHOOSE r \in {LET kd == kind IN [name |-> R({"Wavelength", "ch A", "T.x", "value"}) \o ToString(i), kind |-> kd, vals |-> Vals(kd, n),
                   unit |-> IF kd \in {"text", "bool"} THEN "" ELSE u] : kind \in {R({"float", "float", "int", "text", "bool"})}, u \in {R(Units \cup {""})}} : TRUE
Meta(i) == CHOOSE r \in {[key |-> R({"starName", "R", "note x"}) \o ToString(i), kind |-> k, val |-> IF k = "text" THEN R(Texts \ {"line\nline"}) ELSE IF k = "int" THEN R(Ints) ELSE R(Floats \ {"nan", "inf"}),
                          unit |-> IF k = "quantity" THEN R(Units \ {""}) ELSE ""] : k \in {R({"text", "int", "float", "quantity"})}} : TRUE
RECURSIVE Tree(_, _), Kids(_, _)
Tree(d, i) ==
    CHOOSE r \in {
      CASE k = "scalar" -> Node(nm, k, 0, 0, kd, Vals(kd, 1), "", <<>>)
        [] k = "bool" -> Node(nm, k, 0, 0, "bool", Vals("bool", 1), "", <<>>)
        [] k = "text" -> Node(nm, k, 0, 0, "text", Vals("text", 1), "", <<>>)
        [] k = "array" -> Node(nm, k, n, IF n = 0 THEN 0 ELSE m, ab, Vals(ab, IF m = 0 THEN n ELSE n * m), "", <<>>)
        [] k = "list" -> Node(nm, k, n + 1, m, kd, Vals(kd, IF m = 0 THEN n + 1 ELSE (n + 1) * m), "", <<>>)
        [] k = "quantity" -> Node(nm, k, n, IF n = 0 THEN 0 ELSE m, "float", Vals("float", IF n = 0 THEN 1 ELSE IF m = 0 THEN n ELSE n * m), un, <<>>)
        [] k = "signal" -> [Node(nm, k, n + 1, 0, "float", Vals("float", n + 1), u2, <<>>) EXCEPT !.kind = "float"]
        [] k \in {"tag", "bare"} -> Node(nm, k, 0, 0, "float", Vals("float", 1), un, IF k = "bare" THEN <<>> ELSE Kids(IF d > 1 THEN 1 ELSE 0, R(0..2)))
        [] k = "table" -> LET rows == n IN [Node(nm, k, rows, R(0..1), "", <<>>, "", <<>>) EXCEPT !.cols = TLCEval([j \in 1..R(1..4) |-> TLCEval(Col(j, n))]), !.n = n,
                                             !.meta = TLCEval([j \in 1..R(0..3) |-> TLCEval(Meta(j))])]
        [] OTHER -> Node(nm, k, 0, 0, "", <<>>, "", Kids(d - 1, R(0..4)))
      : k \in {R(IF d > 0 THEN {"dict", "odict", "tag", "scalar", "text", "table", "quantity", "signal"} ELSE {"scalar", "scalar", "bool", "text", "array", "list", "quantity", "quantity", "signal", "tag", "bare", "table"})},
        nm \in {Name(i)}, n \in {R(IF R(1..12) = 1 THEN {70, 130} ELSE 0..4)}, m \in {R({0, 0, 2, 3})}, kd \in {R({"int", "float"})}, ab \in {R({"int", "float", "bool"})}, un \in {R(Units)}, u2 \in {R({"", "K", "W / (m2 um)", "ct / s"})}} : TRUE
Kids(d, k) == IF k = 0 THEN <<>> ELSE TLCEval(Kids(d, k - 1)) \o TLCEval(<<Tree(d, k)>>)
Group(i, o) == [g |-> "g" \o ToString(R(1..2)), nodes |-> TLCEval([j \in 1..Len(o) |-> [o[j] EXCEPT !.name = @ \o "_" \o ToString(i)]]), append |-> R({TRUE, TRUE, TRUE, FALSE})]
Init == \E i \in 1..N : \E n \in {R(1..3)} : c = [id |-> i, puts |-> TLCEval([j \in 1..n |-> Group(j, TLCEval(Kids(R(1..DEPTH), R(1..4))))])]
Next == UNCHANGED c
Out == PrintT("CASE " \o ToJson(c))
=============================================================================
