--------------------------- MODULE OpticalPathMC ---------------------------
(* exhaustive check over every path of up to MaxLen elements of an alphabet *)
EXTENDS OpticalPath
CONSTANT MaxLen
El(ty, te, sr, t, r, us, em, lo, hi, sa, w) ==
    [name |-> "x", type |-> ty, temp |-> te, src |-> sr, hasT |-> t # <<>>, hasR |-> r # <<>>, use |-> us,
     T |-> IF t = <<>> THEN <<0, 0>> ELSE t, R |-> IF r = <<>> THEN <<0, 0>> ELSE r, em |-> em,
     lo |-> lo, hi |-> hi, sa |-> sa, w |-> w]
None == <<-1, -1>>
Alphabet == {
    El("surface", 300, "none", <<>>, <<>>, "", <<1, 1>>, 1, 2, 0, 0),
    El("surface", 0, "direct", <<1, 1>>, <<>>, "", <<2, 2>>, 1, 2, 0, 0),
    El("surface", 280, "direct", <<1, 1>>, <<3, 3>>, "R", <<2, 2>>, 1, 2, 5, 0),
    El("filter", 300, "direct", <<>>, <<2, 2>>, "", None, 1, 1, 0, 0),
    El("filter", 300, "file", <<1, 2>>, <<2, 1>>, "", <<0, 3>>, 2, 2, 0, 0),
    El("filter", 0, "file", <<1, 2>>, <<2, 1>>, "R", <<0, 3>>, 1, 2, 0, 0),
    El("optics box", 300, "none", <<>>, <<>>, "", <<0, 0>>, 1, 2, 0, 0),
    El("detector box", 250, "none", <<>>, <<>>, "", None, 1, 2, 0, 0),
    El("slit", 0, "none", <<>>, <<>>, "", None, 1, 2, 0, 3),
    El("slit", 260, "direct", <<1, 1>>, <<>>, "", <<1, 1>>, 1, 2, 0, 2)}
Paths == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
MInit == /\ path \in Paths
         /\ Cardinality({i \in 1..Len(path) : path[i].type = "slit"}) <= 1
         /\ chan \in [lo : 1..2, hi : 1..2, force : {"True", "False"}] /\ chan.lo <= chan.hi
         /\ k = 0 /\ lights = <<>> /\ total = [z \in Zones |-> 0]
MNext == PassElement
\* the foreground of a channel with a slit is always dispersed, also when no
\* element emits before the slit; edges only ever remove light
Foreground == Done => (SlitWidth # 0 => ForegroundClass \in {"zero", "slit:" \o ToString(SlitWidth)})
EdgesOnlyRemove == \A z \in 1..3 : Applied(z) \in {Z} \cup {total[y] : y \in {z} \cap Zones}
=============================================================================
