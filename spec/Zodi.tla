-------------------------------- MODULE Zodi --------------------------------
(* The zodiacal level of a target.

   sky     the entries of the map in force: [ra, dec, coef]
   desc    the description: [map: "on", "off" or "absent",
                             factor: coefficient, -1 when there is none,
                             file: "none", "good" or "bad"]
   at      the target's coordinates: <<ra, dec>>, or <<>> when it has none
   level   the coefficient estimated, -1 before                            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES sky, desc, at, level
vars == <<sky, desc, at, level>>
Sq(x) == x * x
Distance(e, p) == Sq(e.ra - p[1]) + Sq(e.dec - p[2])
Nearest(p) == {i \in 1..Len(sky) : \A j \in 1..Len(sky) : Distance(sky[i], p) <= Distance(sky[j], p)}
UseMap == desc.map = "on" /\ at # <<>> /\ desc.file # "bad"
Factor == IF desc.factor = -1 THEN 0 ELSE desc.factor
Levels == IF UseMap THEN {sky[i].coef : i \in Nearest(at)} ELSE {Factor}

Point(S, d, p) == sky' = S /\ desc' = d /\ at' = p /\ level' = -1
Estimate == level' \in Levels /\ UNCHANGED <<sky, desc, at>>
\* the level is never invented: an entry of the map or the factor
Known == level # -1 => level \in ({sky[i].coef : i \in 1..Len(sky)} \cup {Factor})
Closest == (level # -1 /\ UseMap) =>
             \E i \in 1..Len(sky) : sky[i].coef = level /\ \A j \in 1..Len(sky) : Distance(sky[i], at) <= Distance(sky[j], at)
=============================================================================
