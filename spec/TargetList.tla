----------------------------- MODULE TargetList -----------------------------
(* Reading a target list: the header first, then row after row.

   format   "csv" "mrs" (mission reference csv) "xlsx" "table"
   columns  [side ("star" "planet" "other"), word (as in the header), unit (as in
            the header, "" none), kind ("text" "num"), error (an error column)]
   targets  what was read so far: [id, name, star, planet]; star and planet map
            attributes to values
   A cell is a number: the text with that number, tenths of a number, or Missing*)
EXTENDS Integers, Sequences, FiniteSets, TLC, TargetNames
Missing == -999
VARIABLES format, columns, targets, refused
vars == <<format, columns, targets, refused>>

\* ---- mission reference names
MrsKeys == [mass |-> "M", radius |-> "R", temperature |-> "Teff", distance |-> "D", period |-> "P"]
           @@ ("molecular weight" :> "mmw") @@ ("semi-major axis" :> "a") @@ ("impact parameter" :> "b")
           @@ ("heat redistribution factor" :> "Gamma") @@ ("transit duration" :> "T14")
MrsUnits == [Rs |-> "R_sun", Ms |-> "M_sun", Re |-> "R_earth", Me |-> "M_earth", Rj |-> "R_jupiter", Mj |-> "M_jupiter", days |-> "day"]
Translated(m, k) == IF k \in DOMAIN m THEN m[k] ELSE k
Attribute(col) == IF format = "mrs" THEN Translated(MrsKeys, col.word) ELSE col.word
Unit(col) == IF format = "mrs" THEN Translated(MrsUnits, col.unit) ELSE col.unit
Used(side) == {i \in 1..Len(columns) : columns[i].side = side /\ columns[i].error = 0}
HasPlanets == Used("planet") # {}

\* a table needs quantities
Acceptable == format = "table" => \A i \in Used("star") \union Used("planet") : columns[i].kind = "text" \/ columns[i].unit # ""
Cell(col, x) == IF x = Missing THEN [k |-> "missing"]
                ELSE IF col.kind = "text" THEN [k |-> "text", v |-> x]
                ELSE IF Unit(col) = "" THEN [k |-> "num", v |-> x]
                ELSE [k |-> "qty", v |-> x, unit |-> Unit(col)]
\* a number in a text column (a name that is a number) stays text
Body(side, row) == [a \in {Attribute(columns[i]) : i \in Used(side)} |->
                      LET i == CHOOSE i \in Used(side) : Attribute(columns[i]) = a IN Cell(columns[i], row[i])]
NameOf(t) == IF HasPlanets THEN t.planet["name"] ELSE t.star["name"]

Header(f, cols) == /\ format' = f /\ columns' = cols /\ targets' = <<>> /\ refused' = 0
ReadRow(row) ==
    /\ refused = 0 /\ Acceptable
    /\ LET t == [star |-> Body("star", row), planet |-> IF HasPlanets THEN Body("planet", row) ELSE <<>>] IN
       targets' = Append(targets, [id |-> Len(targets), name |-> NameOf(t), star |-> t.star, planet |-> t.planet])
    /\ UNCHANGED <<format, columns, refused>>
Reject == /\ ~Acceptable /\ refused' = 1 /\ targets' = <<>> /\ UNCHANGED <<format, columns>>
\* looking for targets by a part of the star's or the planet's name
Called(t, q) == Matches(q, t.star["name"].v) \/ (HasPlanets /\ Matches(q, t.planet["name"].v))
Found(q) == LET T(t) == Called(t, q) IN SelectSeq(targets, T)
Blank == format = "" /\ columns = <<>> /\ targets = <<>> /\ refused = 0
=============================================================================
