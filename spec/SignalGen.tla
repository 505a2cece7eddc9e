------------------------------- MODULE SignalGen -------------------------------
(* Random inputs: most are right but for one thing *)
EXTENDS Signal, TLC, Json
CONSTANTS NCASES, NEACH
R(S) == RandomElement(S)
Kinds == {"Signal", "CountsPerSeconds", "Noise", "Sed", "Radiance", "CustomSignal"}
Size3(sh) == IF Len(sh) = 3 THEN sh[1] * sh[2] * sh[3] ELSE Size(sh)
Same(x) == {y \in DOMAIN UNITS : UNITS[y].dim = UNITS[x].dim}
AUnit(fixed, wrong) == IF wrong THEN R({y \in DOMAIN UNITS : UNITS[y].dim # UNITS[fixed].dim}) ELSE R(Same(fixed))
\* values that stay small when converted
Vals(un, sh) == LET b == IF un = "" THEN 1 ELSE UNITS[un].num
                    mx == IF b > 1000000 THEN 2 ELSE IF b > 1000 THEN 500 ELSE 9000 IN
                [i \in 1..Size3(sh) |-> R(1..mx)]
Input(fixed, sh, wrong) ==
    LET f == IF wrong THEN R({"quantity", "quantity", "column"}) ELSE IF Len(sh) > 1 THEN R({"list", "array", "quantity"}) ELSE R({"list", "array", "quantity", "column"})
        un == IF f \in {"list", "array"} \/ (f = "column" /\ ~wrong /\ R(1..3) = 1) THEN "" ELSE AUnit(fixed, wrong)
    IN [form |-> f, unit |-> un, shape |-> sh, vals |-> TLCEval(Vals(un, sh))]
ASignal(k) ==
    LET kind == R(Kinds) n == R(1..5) m == R(1..4) q == R(1..24) two == R(BOOLEAN)
        wl == IF q = 1 THEN <<n, R(1..2)>> ELSE <<n>>
        tm == IF q = 2 THEN <<m, R(1..2)>> ELSE IF two THEN <<m>> ELSE IF q = 3 THEN <<m>> ELSE <<1>>
        dt == CASE q = 4 -> <<n + 1>> [] q = 5 -> <<n, m + 1>> [] q = 6 -> <<m, n>> [] q = 7 -> <<n, m, 1>> [] q = 8 -> <<n, m>> [] q = 9 -> <<1>> [] q = 10 -> <<n, 1, 1>>
                [] OTHER -> IF two THEN <<n, m>> ELSE <<n>>
    IN [kind |-> kind, wl |-> Input("um", wl, q = 11), data |-> Input(Fixed(kind, "data"), dt, q = 12), time |-> Input("h", tm, q = 13),
        notime |-> IF q >= 14 /\ ~two THEN R(0..1) ELSE 0]
Init == made = <<>> /\ \A c \in 1..NCASES : PrintT("CASE " \o ToJson([id |-> c, signals |-> [i \in 1..NEACH |-> TLCEval(ASignal(i))]]))
Next == FALSE /\ UNCHANGED vars
=============================================================================
