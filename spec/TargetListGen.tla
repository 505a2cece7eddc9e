--------------------------- MODULE TargetListGen ---------------------------
EXTENDS Integers, Sequences, TLC, Json, FiniteSets, SequencesExt, Randomization, TargetNames
CONSTANT N
VARIABLE c
R(S) == RandomElement(S)
Missing == -999
Col(s, w, u, k, e) == [side |-> s, word |-> w, unit |-> u, kind |-> k, error |-> e]
StarPool == {Col("star", "M", "M_sun", "num", 0), Col("star", "Teff", "K", "num", 0), Col("star", "R", "R_sun", "num", 0), Col("star", "D", "pc", "num", 0),
             Col("star", "D", "lyr", "num", 0), Col("star", "L", "L_sun", "num", 0), Col("star", "logg", "cm/s2", "num", 0),
             Col("star", "magk", "", "num", 0), Col("star", "type", "", "text", 0), Col("star", "ra", "deg", "num", 0), Col("star", "dec", "deg", "num", 0)}
PlanetPool == {Col("planet", "M", "M_jup", "num", 0), Col("planet", "R", "R_earth", "num", 0), Col("planet", "a", "AU", "num", 0), Col("planet", "P", "d", "num", 0),
               Col("planet", "type", "", "text", 0), Col("planet", "albedo", "", "num", 0)}
MrsStar == {Col("star", "mass", "Ms", "num", 0), Col("star", "temperature", "K", "num", 0), Col("star", "radius", "Rs", "num", 0), Col("star", "distance", "pc", "num", 0),
            Col("star", "metallicity", "", "num", 0), Col("star", "mass", "Ms", "num", 1), Col("star", "age", "Gyr", "num", 0), Col("star", "radius", "Rs", "num", 1)}
MrsPlanet == {Col("planet", "mass", "Mj", "num", 0), Col("planet", "radius", "Re", "num", 0), Col("planet", "semi-major axis", "m", "num", 0), Col("planet", "period", "days", "num", 0),
              Col("planet", "molecular weight", "", "num", 0), Col("planet", "impact parameter", "", "num", 0), Col("planet", "transit duration", "s", "num", 0),
              Col("planet", "heat redistribution factor", "", "num", 0), Col("planet", "radius", "Re", "num", 1), Col("planet", "mass", "Me", "num", 0), Col("planet", "radius", "Rj", "num", 0), Col("planet", "type", "", "text", 0)}
Other == {Col("other", "note", "", "text", 0), Col("other", "priority", "", "num", 0)}
Sub(S) == TLCEval(LET k == R(0..Cardinality(S)) IN CHOOSE T \in {RandomSubset(k, S)} : TRUE)
\* one column per attribute
Unique(cols) == \A i, j \in 1..Len(cols) : i # j => <<cols[i].side, cols[i].word, cols[i].error>> # <<cols[j].side, cols[j].word, cols[j].error>>
NameCol(s) == Col(s, "name", "", "text", 0)
Shuffled(S) == TLCEval(SetToSeq(S))
Mixed(cols, k) == IF Len(cols) = 0 THEN cols ELSE SubSeq(cols, (k % Len(cols)) + 1, Len(cols)) \o SubSeq(cols, 1, k % Len(cols))
Free(f, planets) == LET s == IF f = "mrs" THEN MrsStar ELSE StarPool
                        p == IF f = "mrs" THEN MrsPlanet ELSE PlanetPool
                        cols == TLCEval(Shuffled({NameCol("star")} \union Sub(s) \union (IF planets = 1 THEN {NameCol("planet")} \union Sub(p) ELSE {}) \union Sub(Other)))
                    IN Mixed(cols, R(0..20))
\* fixed places in the sheet
Sheet(z0) == LET six(S, n) == SubSeq(TLCEval(SetToSeq(S)), 1, n)
             st == [k \in 1..5 |-> LET w == <<"M", "Teff", "R", "D", "magk">>[k] IN Col("star", w, <<"M_sun", "K", "R_sun", "pc", "">>[k], "num", 0)]
             pl == [k \in 1..10 |-> LET w == <<"M", "R", "a", "P", "type", "T", "e", "i", "b", "albedo">>[k] IN
                        Col("planet", w, <<"M_jup", "R_jup", "AU", "d", "", "K", "", "deg", "", "">>[k], IF k = 5 THEN "text" ELSE "num", 0)]
             off == R(0..4) offp == R(0..9)
         IN TLCEval(<<NameCol("star")>> \o Mixed(st, off) \o <<NameCol("planet")>> \o Mixed(pl, offp) \o <<Col("planet", "Nobs", "", "num", 0)>>)
Cell(f, col) == IF col.kind = "text" THEN R(1..9) ELSE IF f = "csv" /\ R(1..15) = 1 THEN Missing ELSE R({0, 5, 10, 15, 20, 37, 123, 58000, 10})
Format(z0) == R({"csv", "csv", "mrs", "mrs", "xlsx", "table", "table"})
\* a part of a text, told otherwise
Told(ch) == (IF R(1..6) = 1 THEN <<R({" ", "-"})>> ELSE <<>>) \o (IF ch \in {" ", "-"} /\ R(1..2) = 1 THEN <<>> ELSE IF R(1..3) = 1 THEN <<Upper(ch)>> ELSE <<ch>>)
RECURSIVE Retold(_)
Retold(q) == IF q = <<>> THEN <<>> ELSE Told(Head(q)) \o Retold(Tail(q))
Query(z) == LET t == TLCEval(Spelled[R(1..Len(Spelled))])
                a == TLCEval(R(1..Len(t)))
                b == TLCEval(R(a..Len(t))) IN TLCEval(Retold(SubSeq(t, IF R(1..3) = 1 THEN 1 ELSE a, IF R(1..3) = 1 THEN Len(t) ELSE b)))
List(i) == \E f \in {Format(0)} : \E p \in {R(0..1)} : \E cols \in {IF f = "xlsx" THEN Sheet(0) ELSE Free(f, p)} : \E n \in {R((IF f = "table" THEN 1 ELSE 0)..5)} :
    /\ c = [id |-> i, queries |-> TLCEval([k \in 1..3 |-> TLCEval(Query(k))]), format |-> f, columns |-> cols, comma |-> R(0..2), quantity |-> R(1..3), ext |-> R({"", "", "", "", "", "", "", ".txt", ".ecsv", ""}),
            rows |-> TLCEval([r \in 1..n |-> [k \in 1..Len(cols) |-> Cell(f, cols[k])]])]
Init == \E i \in 1..N : List(i)
Next == UNCHANGED c
Good == Unique(c.columns)
Out == Good => PrintT("CASE " \o ToJson(c))
=============================================================================
