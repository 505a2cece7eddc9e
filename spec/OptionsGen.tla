----------------------------- MODULE OptionsGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Depth
VARIABLE c
R(S) == RandomElement(S)
Alphabet == {"1", "2", "0", "5", ".", "-", "e", "+", " "}
RECURSIVE Chars(_)
Chars(n) == IF n = 0 THEN <<>> ELSE <<R(Alphabet)>> \o Chars(n - 1)
Plain == {<<>>, <<" ">>, <<"1">>, <<"1">>, <<" ", "1", " ">>, <<"1", ".", "0">>, <<"2">>, <<"-", "3">>, <<"1", "e", "3">>, <<".", "5">>, <<"2", ".">>, <<".">>,
          <<"T", "r", "u", "e">>, <<"F", "a", "l", "s", "e">>, <<"t", "r", "u", "e">>, <<"T", "r", "u", "e", "s">>, <<"a">>, <<"a">>, <<"a", " ", "b">>,
          <<"M", "1">>, <<"N", "o", "n", "e">>}
Paths == {<<"@", "/", "x">>, <<"@">>, <<"a", "@", "b", "@">>}
Text(z0) == LET k == R(1..5) IN IF k <= 2 THEN R(Plain) ELSE IF k = 3 THEN R(Paths) ELSE Chars(R(1..5))
Number(z0) == R({<<"1">>, <<"2", ".", "5">>, <<"1", "e", "3">>, <<"-", "3">>, <<"0">>, <<"1", ".", "0">>})
Unit(z0) == R({"micron", "", "s", "dimensionless", "deg", "count/s"})
Attr(z0) == R({<<>>, <<>>, <<>>, [note |-> "n1"], [format |-> "pixel_based"], [note |-> "x", format |-> "5"]})
WithUnit(u, a) == IF a = <<>> THEN [unit |-> u] ELSE [unit |-> u, note |-> "q"]
Open(t, a, x) == [o |-> 1, tag |-> t, attrs |-> a, text |-> x]
Shut == [o |-> 0]
Leaf(t, x) == <<Open(t, <<>>, x), Shut>>
Tag(z0) == R({"a", "b", "opticalElement", "channel", "a"})
File(z0) == R({<<"@", "/", "f", "1">>, <<"@", "/", "f", "2">>, <<"<P1>", "/", "f", "1">>, <<"<P2>", "/", "f", "2">>, <<" ", "@", "/", "f", "3", " ">>})
RECURSIVE Node(_), Kids(_, _)
Kids(d, k) == IF k = 0 THEN <<>> ELSE TLCEval(Node(d)) \o TLCEval(Kids(d, k - 1))
Node(d) ==
    LET k == R(1..8) n == IF d = 0 THEN 0 ELSE R(0..3) IN
    IF k = 1 THEN <<Open(Tag(0), WithUnit(Unit(0), Attr(0)), Number(0))>> \o TLCEval(Kids(d - 1, n)) \o <<Shut>>
    ELSE IF k = 2 /\ d > 0 THEN <<Open(Tag(0), Attr(0), Text(0))>> \o Leaf("datafile", File(0))
                                \o (IF R(1..3) = 1 THEN Leaf("datatype", <<"e", "c", "s", "v">>) ELSE <<>>) \o TLCEval(Kids(d - 1, n)) \o <<Shut>>
    ELSE <<Open(Tag(0), Attr(0), Text(0))>> \o TLCEval(Kids(d - 1, n)) \o <<Shut>>
Fault(z0) == R({"", "", "", "", "", "", "missing", "ext", "data", "type"})
Doc(z0) == CHOOSE d \in {[forced |-> p, same |-> s, fault |-> f, fmt |-> q, events |-> e] :
          p \in {R({<<>>, <<>>, <<"<P1>">>, <<"<P3>">>})}, s \in {R(0..1)}, f \in {Fault(0)}, q \in {R(0..3)},
          e \in {TLCEval(Leaf("ConfigPath", R({<<"<P1>">>, <<" ", "<P2>">>, <<"<P2>", " ">>})) \o TLCEval(Kids(Depth, R(1..5))))}} : TRUE
\* without a path of its own: no placeholder may appear unless the run gives one
Bare(z0) == CHOOSE d \in {[forced |-> <<"<P3>">>, same |-> s, fault |-> "", fmt |-> 0, events |-> e] :
          s \in {R(0..1)}, e \in {TLCEval(Kids(2, 2))}} : TRUE
\* channels of classes, the classes in several letter cases
Styles == {"as is", "lower", "upper"}
Class(z0) == R({"Photometer", "Photometer", "Spectrometer", "Spectrometer", "Imager"})
Channels(z0) == LET n == R(1..5) IN [k \in 1..n |-> [name |-> "c" \o ToString((7 * k + z0) % 11), base |-> Class(k), style |-> R(Styles)]]
Asked(z0) == CHOOSE a \in {[chans |-> TLCEval(Channels(z0)), base |-> Class(z0), style |-> R(Styles)]} : TRUE
Init == \E i \in 1..N : \E n \in {R(1..3)} :
          c = [id |-> i, listing |-> Asked(i), docs |-> TLCEval([k \in 1..n |-> IF R(1..5) = 1 THEN Bare(0) ELSE Doc(0)])]
Next == UNCHANGED c
Out == PrintT("CASE " \o ToJson(c))
=============================================================================
