------------------------------ MODULE FigureGen ------------------------------
(* random tables, channels and runs to be drawn *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANT N
VARIABLE c
R(S) == RandomElement(S)
Bool(p) == R(1..10) <= p
\* k different ones of S, in any order
RECURSIVE Some(_, _)
Some(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET x == TLCEval(R(S)) IN <<x>> \o Some(S \ {x}, k - 1)
Val(i) == IF Bool(1) THEN <<0, 0>> ELSE <<R(1000..9999), R(-5..2)>>
Vals(n, bad) == TLCEval([i \in 1..n |-> IF bad = 1 /\ Bool(2) THEN <<-1, 0>> ELSE Val(i)])
Col(n, k, h, bad) == [name |-> n, kind |-> k, vals |-> Vals(h, bad)]
ChNames == {"Zed", "AIRS", "b2", "FGS 1", "M"}
RECURSIVE Rows(_, _)
Rows(ns, w) == IF ns = <<>> THEN <<>>
               ELSE LET k == TLCEval(R(1..3)) s == TLCEval(R(1..2))
                        w0 == TLCEval(IF Bool(3) THEN R(5..40) ELSE w)
                        up == [i \in 1..k |-> [ch |-> Head(ns), wl |-> w0 + 2 * s * i, lo |-> w0 + 2 * s * i - s, hi |-> w0 + 2 * s * i + s]] IN
                    \* bins from the shortest wavelength, from the longest, or as they come
                    (IF Bool(6) THEN up ELSE LET o == TLCEval(Some(1..k, k)) IN [i \in 1..k |-> up[o[i]]]) \o Rows(Tail(ns), w0 + 2 * s * k + R(1..9))
Lights == {"instrument_signal", "zodi_signal", "cloud_signal", "gold signal", "mirror 2 signal", "zodi_2_signal"}
Others == {"starSignal", "MaxSignal_inPixel", "star_MaxSignal_inPixel", "starFlux", "QE", "WindowSize", "frameTime"}
Shuffle(s) == Some({s[i] : i \in 1..Len(s)}, Len(s))
Table(name) == LET rs == TLCEval(Rows(TLCEval(Some(ChNames, R(1..3))), R(5..20)))
                   h == Len(rs)
                   li == TLCEval(Some(Lights, R(0..3)))
                   cs == [i \in 1..Len(li) |-> Col(li[i], "signal", h, 0)] \o <<Col("star_signal_inAperture", "signal", h, 0)>>
                         \o [i \in 1..Len(li) |-> Col(li[i] \o "_noise", "absolute", h, 0)]
                         \o (IF Bool(7) THEN <<Col("darkcurrent_noise", "absolute", h, 0), Col("read_noise", "absolute", h, 0)>> ELSE <<>>)
                         \o (IF Bool(5) THEN <<Col("gain_noise", "relative", h, 0)>> ELSE <<>>) \o (IF Bool(3) THEN <<Col("custom 2_noise", "relative", h, 0)>> ELSE <<>>)
                         \o (IF Bool(9) THEN <<Col("total_noise", "total", h, 1)>> ELSE <<>>)
                   os == TLCEval(Some(Others, R(0..3)))
               IN [name |-> name, rows |-> rs, cols |-> TLCEval(Shuffle(TLCEval(cs \o [i \in 1..Len(os) |-> Col(os[i], "other", h, 0)])))]
Kinds(S) == LET n == TLCEval(R(1..5)) IN TLCEval([i \in 1..n |-> R(S)])
\* steps of exponents on the four plateaus
Steps(z) == TLCEval([i \in 1..4 |-> R(0..4)])
Chans(z) == LET ns == TLCEval(Some(ChNames \ {"b2"}, R(1..3))) IN TLCEval([i \in 1..Len(ns) |-> [name |-> ns[i], t |-> Steps(i), q |-> IF Bool(5) THEN Steps(i) ELSE LET k == TLCEval(R(0..3)) IN [j \in 1..4 |-> k],
                                                                                 class |-> R({"phot", "spec"})]])
Force(z) == R({"absent", "True", "True", "False"})
Names == {"s", "s 1", "s 10", "S 1", "other", "all"}
\* which targets a command asks for: all, by name, by indices in the file, or by both (refused)
Asked(ns) == LET q == TLCEval(R(1..10)) name == IF Bool(8) THEN R({ns[j] : j \in 1..Len(ns)}) ELSE R(Names) IN
    CASE q <= 4 -> [how |-> "all", name |-> "", at |-> <<>>]
      [] q <= 7 -> [how |-> "name", name |-> name, at |-> <<>>]
      [] q <= 9 -> [how |-> "number", name |-> "", at |-> Some(0..Len(ns) - 1, R(1..Len(ns)))]
      [] OTHER -> [how |-> "both", name |-> name, at |-> <<0>>]
ArgsOf(z) == [scale |-> R({"log", "linear"}), edges |-> R(0..1)]
One(i) == LET q == TLCEval(R(1..12)) IN
    CASE q <= 5 -> [id |-> i, kind |-> "table", tables |-> <<Table("star " \o ToString(i))>>, ops |-> Kinds({"signals", "noises", "table", "table", "save", "savee", "efficiency"}), args |-> ArgsOf(i)]
      [] q <= 8 -> LET ns == TLCEval(Some(Names, R(1..4))) IN [id |-> i, kind |-> "file", tables |-> TLCEval([j \in 1..Len(ns) |-> TLCEval(Table(ns[j]))]), args |-> ArgsOf(i), asked |-> Asked(ns)]
      [] q <= 11 -> [id |-> i, kind |-> "eff", force |-> Force(i), chans |-> Chans(i), ops |-> Kinds({"efficiency", "efficiency", "save", "savee"}), args |-> ArgsOf(i)]
      [] OTHER -> [id |-> i, kind |-> "run", force |-> Force(i), chans |-> Chans(i), full |-> R(0..1), threads |-> R(1..2), zodi |-> R(0..1), saved |-> R({0, 1, 1, 1}), stars |-> R(1..2)]
Init == \E i \in 1..N : \E x \in {TLCEval(One(i))} : c = x
Next == UNCHANGED c
Out == PrintT("CASE " \o ToJson(c))
=============================================================================
