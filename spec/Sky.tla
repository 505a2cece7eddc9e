-------------------------------- MODULE Sky --------------------------------
(* Foregrounds between the sky and the telescope, and the star behind them.

   frgs     the foregrounds of the payload, in its order: the first is the
            farthest, the last the nearest to the telescope.
            [name, rad (exponents by zone), trans (exponents by zone), lo, hi]
            lo..hi: the zones its data cover; it is dark and transparent
            elsewhere. Exponents: 2^-e; Dark = 0.
   through  by zone: attenuation by the foregrounds nearer than the next one
   lights   [name, light]: what of each reaches the telescope, by zone
   past     how many observations this target has seen before                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NZ
VARIABLES frgs, through, lights, past
vars == <<frgs, through, lights, past>>
Zones == 1..NZ
Dark == 99
Times(a, b) == IF a >= Dark \/ b >= Dark THEN Dark ELSE a + b
Covered(f, z) == f.lo <= z /\ z <= f.hi
Rad(f, z) == IF Covered(f, z) THEN f.rad[z] ELSE Dark
Trans(f, z) == IF Covered(f, z) THEN f.trans[z] ELSE 0

\* a new observation starts from a clear sky, whatever was observed before
Observe(F) == /\ frgs' = F /\ lights' = <<>> /\ through' = [z \in Zones |-> 0] /\ past' = past + 1
Done == Len(lights) = Len(frgs)
\* the next foreground, nearest first
Current == frgs[Len(frgs) - Len(lights)]
PassForeground ==
    /\ ~ Done
    /\ lights' = Append(lights, [name |-> Current.name, light |-> [z \in Zones |-> Times(Rad(Current, z), through[z])]])
    /\ through' = [z \in Zones |-> Times(through[z], Trans(Current, z))]
    /\ UNCHANGED <<frgs, past>>
\* the star is behind all of them
Star(z) == through[z]

Init == frgs = <<>> /\ lights = <<>> /\ through = [z \in Zones |-> 0] /\ past = 0

RECURSIVE Sum(_, _, _)   \* transmission of the foregrounds from i on, at z
Sum(F, i, z) == IF i > Len(F) THEN 0 ELSE Times(Trans(F[i], z), Sum(F, i + 1, z))
\* stated without the chain: what each foreground and the star lose
Exact == Done => /\ \A z \in Zones : Star(z) = Sum(frgs, 1, z)
                 /\ \A i \in 1..Len(frgs), z \in Zones :
                      lights[Len(frgs) + 1 - i].light[z] = Times(Rad(frgs[i], z), Sum(frgs, i + 1, z))
                 /\ Len(lights) = Len(frgs)
=============================================================================
