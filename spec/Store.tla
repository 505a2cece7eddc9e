-------------------------------- MODULE Store --------------------------------
(* Nested dictionaries in an output file.

   file   what the file holds: group name -> the entries stored in it
   opened whether the file has been created

   An entry is one place of the nested dictionary: its path (the keys leading
   to it) and what is there:
     [path, k, shape, vals, unit, cols, meta]
   k is "dict" (a dictionary), "odict" (an ordered one, vals holds its keys), "num" (a number, array or list; shape, vals and
   unit say which), "text" (vals holds it) or "table" (cols, meta).
   Entries(node) gives the entries of a value to store; what is stored is what
   has to be read back: a quantity and a number with a unit beside it are the
   same thing, so are a list and an array.                                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES file, opened
vars == <<file, opened>>
Entry(p, k, shape, vals, unit) == [path |-> p, k |-> k, shape |-> shape, vals |-> vals, unit |-> unit, cols |-> <<>>, meta |-> {}]
Dict(p) == Entry(p, "dict", <<>>, <<>>, "")
Quantity(p, shape, vals, unit) == {Dict(p), Entry(Append(p, "value"), "num", shape, vals, unit)}
Shape(n) == IF n.n = 0 THEN (IF n.k = "array" THEN <<0>> ELSE <<>>) ELSE IF n.m = 0 THEN <<n.n>> ELSE <<n.n, n.m>>
RECURSIVE Entries(_, _)
Entries(p, n) ==
    LET q == Append(p, n.name) kids == UNION {Entries(q, n.kids[i]) : i \in 1..Len(n.kids)} IN
    CASE n.k = "dict" -> {Dict(q)} \cup kids
      \* an ordered dictionary keeps the order of its keys
      [] n.k = "odict" -> {[Dict(q) EXCEPT !.k = "odict", !.vals = [i \in 1..Len(n.kids) |-> n.kids[i].name]]} \cup kids
      [] n.k \in {"scalar", "bool"} -> {Entry(q, "num", <<>>, n.vals, "")}
      [] n.k \in {"array", "list"} -> {Entry(q, "num", Shape(n), n.vals, "")}
      [] n.k = "text" -> {Entry(q, "text", <<>>, n.vals, "")}
      [] n.k = "quantity" -> Quantity(q, Shape(n), n.vals, n.unit)
      \* a tag of a payload description: value, unit and further keys
      [] n.k \in {"tag", "bare"} -> Quantity(q, Shape(n), n.vals, n.unit) \cup kids
      [] n.k = "signal" -> {Dict(q)} \cup Quantity(Append(q, "wl_grid"), <<n.n>>, n.wl, "um")
                           \cup Quantity(Append(q, "data"), <<n.n>>, n.vals, n.unit) \cup Quantity(Append(q, "time_grid"), <<1>>, <<"0">>, "h")
      [] n.k = "table" -> {[path |-> q, k |-> "table", shape |-> <<>>, vals |-> <<>>, unit |-> "", cols |-> n.cols,
                            meta |-> {<<n.meta[i].key, n.meta[i].val, n.meta[i].unit>> : i \in 1..Len(n.meta)}]}
All(nodes) == UNION {Entries(<<>>, nodes[i]) : i \in 1..Len(nodes)}

Create == opened' = TRUE /\ file' = <<>>
Reopen == opened' = TRUE /\ UNCHANGED file
Of(g) == IF g \in DOMAIN file THEN file[g] ELSE {}
\* keys already there are not stored again
Fresh(g, nodes) == \A a \in Of(g), b \in All(nodes) : a.path # b.path
Put(g, nodes) == /\ opened /\ Fresh(g, nodes)
                 /\ file' = [x \in DOMAIN file \cup {g} |-> IF x = g THEN Of(g) \cup All(nodes) ELSE file[x]]
                 /\ UNCHANGED opened
\* storing never changes what is already stored
Keeps == [][\A g \in DOMAIN file : (opened' /\ file' # <<>>) => (g \in DOMAIN file' /\ file[g] \subseteq file'[g])]_vars
Paths == \A g \in DOMAIN file : \A a, b \in file[g] : a.path = b.path => a = b
Nested == \A g \in DOMAIN file : \A a \in file[g] : Len(a.path) > 1 =>
             \E b \in file[g] : b.k \in {"dict", "odict"} /\ b.path = SubSeq(a.path, 1, Len(a.path) - 1)
=============================================================================
