---------------------------- MODULE TargetListMC ----------------------------
EXTENDS TargetList
CONSTANT MaxRows
VARIABLE given
Col(s, w, u, k) == [side |-> s, word |-> w, unit |-> u, kind |-> k, error |-> 0]
Optional == {Col("star", "mass", "Ms", "num"), Col("star", "magk", "", "num"), Col("planet", "name", "", "text"),
             Col("other", "note", "", "text"), [Col("star", "mass", "Ms", "num") EXCEPT !.error = 1]}
Init == Blank /\ given = <<>>
MHeader == /\ columns = <<>> /\ \E f \in {"csv", "mrs", "xlsx", "table"}, a \in SUBSET Optional, first \in {TRUE, FALSE} :
              LET n == <<Col("star", "name", "", "text")>>
                  rest == CHOOSE s \in [1..Cardinality(a) -> a] : \A x \in a : \E i \in DOMAIN s : s[i] = x
              IN Header(f, IF first THEN n \o rest ELSE rest \o n)
           /\ given' = <<>>
MRow == /\ columns # <<>> /\ Len(targets) < MaxRows
        /\ \E row \in [1..Len(columns) -> {1, 2}] : ReadRow(row) /\ given' = Append(given, row)
MReject == columns # <<>> /\ refused = 0 /\ Reject /\ UNCHANGED given
Next == MHeader \/ MRow \/ MReject
Numbered == \A i \in 1..Len(targets) : targets[i].id = i - 1
OwnRow == \A i \in 1..Len(targets) : \A j \in Used("star") :
            targets[i].star[Attribute(columns[j])] = Cell(columns[j], given[i][j])
PlanetFirst == \A i \in 1..Len(targets) : targets[i].name = (IF HasPlanets THEN targets[i].planet["name"] ELSE targets[i].star["name"])
\* everyone has an empty part; who is found has that name, with or without spaces and capitals
Everyone == Found(<<>>) = targets
Same == Found(<<"B", "e", "-", "T">>) = Found(<<"b", "e", "t">>)
NoneIfRefused == refused = 1 => targets = <<>>
=============================================================================
