---------------------------- MODULE OpticalPath ----------------------------
(* Light of a channel on its way to the detector (exorad/models/optics,
   exorad/models/instruments/instrument.py).  Wavelengths are abstracted to
   zones in which every given quantity is constant; emissivities and
   transmissions are powers of two, written as exponents (2^-x), Z is zero.

   An element is a record
     name, type ("surface"/"filter"/"optics box"/"detector box"/"slit"),
     temp    0 for none,
     src     "none"/"direct"/"file": how its transmission is given,
     hasT, hasR, use   the columns or values given, and which to use,
     T, R, em          exponents per zone (a direct value uses the first;
                       em = <<-1,..>> when no emissivity is given),
     lo, hi  zones covered by the file, or the wavelength bounds,
     sa      custom solid angle (0 for none, 10 for 0 sr), w  slit width in whole pixels  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT NZ      \* number of wavelength zones
Zones == 1..NZ
Z == 99
Plus(a, b) == IF a = Z \/ b = Z THEN Z ELSE a + b

Chosen(e) == IF e.use = "T" THEN e.T ELSE IF e.use = "R" THEN e.R
             ELSE IF e.hasT THEN e.T ELSE e.R
Covered(e, z) == z >= e.lo /\ z <= e.hi
Trans(e, z) ==
    CASE e.src = "none" -> 0
      [] e.src = "file" -> IF Covered(e, z) THEN Chosen(e)[z] ELSE Z
      [] OTHER          -> IF Covered(e, z) THEN Chosen(e)[1] ELSE Z
Emis(e, z) ==
    CASE e.src = "file"  -> IF Covered(e, z) THEN e.em[z] ELSE Z
      [] e.em[1] # -1    -> e.em[1]
      [] e.type = "detector box" -> 0
      [] OTHER           -> Z
Emits(e) == e.temp # 0

VARIABLES path,     \* the elements on the light path, common ones first
          k,        \* elements passed so far
          lights,   \* emitted light: [el, rad (per zone), n (slit width met)]
          total,    \* transmission so far, per zone
          chan      \* the channel: [lo, hi, force, slit]
vars == <<path, k, lights, total, chan>>

Start(p, c) ==
    /\ path' = p /\ chan' = c /\ k' = 0 /\ lights' = <<>>
    /\ total' = [z \in Zones |-> 0]

Attenuate(li, e) == [li EXCEPT !.rad = [z \in Zones |-> Plus(@[z], Trans(e, z))],
                               !.n = IF e.type = "slit" THEN e.w ELSE @]

PassElement ==
    /\ k < Len(path)
    /\ LET e == path[k + 1]
           through == [i \in 1..Len(lights) |-> Attenuate(lights[i], e)]
       IN /\ lights' = IF Emits(e)
                       THEN Append(through, [el |-> k + 1, rad |-> [z \in Zones |-> Emis(e, z)], n |-> 0])
                       ELSE through
          /\ total' = [z \in Zones |-> Plus(total[z], Trans(e, z))]
    /\ k' = k + 1 /\ UNCHANGED <<path, chan>>

Done == k = Len(path)

\* ----- what the channel reports once it is built ---------------------------
\* transmission as applied to light from outside: cut at the channel's edges
Applied(z) == IF z \notin Zones THEN Z
              ELSE IF chan.force = "True" /\ ~ (z >= chan.lo /\ z <= chan.hi) THEN Z ELSE total[z]
Dark(li) == \A z \in Zones : li.rad[z] = Z
\* how the light of an element is collected
Class(li) ==
    LET e == path[li.el] IN
    CASE Dark(li)    -> "zero"
      [] li.n # 0    -> "slit:" \o ToString(li.n)
      [] e.sa = 10   -> "zero"      \* a solid angle of 0 sr
      [] e.sa # 0    -> "sa:" \o ToString(e.sa)
      [] e.type = "detector box" -> "pi"
      [] e.type = "optics box"   -> "pi-omega"
      [] OTHER       -> "omega"
SlitWidth == IF \E i \in 1..Len(path) : path[i].type = "slit"
             THEN path[CHOOSE i \in 1..Len(path) : path[i].type = "slit"].w ELSE 0
ForegroundClass == IF \A z \in chan.lo..chan.hi : Applied(z) = Z THEN "zero"
                   ELSE IF SlitWidth # 0 THEN "slit:" \o ToString(SlitWidth) ELSE "omega"

-----------------------------------------------------------------------------
RECURSIVE Tsum(_, _, _)
Tsum(a, b, z) == IF a > b THEN 0 ELSE Plus(Trans(path[a], z), Tsum(a + 1, b, z))
\* light is attenuated by exactly the later elements
LaterOnly == \A i \in 1..Len(lights) : \A z \in Zones :
    lights[i].rad[z] = Plus(Emis(path[lights[i].el], z), Tsum(lights[i].el + 1, k, z))
TotalIsProduct == \A z \in Zones : total[z] = Tsum(1, k, z)
EmittersOnce == /\ \A i \in 1..Len(lights) : Emits(path[lights[i].el])
                /\ \A i, j \in 1..Len(lights) : i < j => lights[i].el < lights[j].el
                /\ Cardinality({i \in 1..k : Emits(path[i])}) = Len(lights)
SlitUpstreamOnly == \A i \in 1..Len(lights) :
    (lights[i].n # 0) <=> \E j \in (lights[i].el + 1)..k : path[j].type = "slit"
\* the last element's own light never loses anything; a box is never dispersed
\* by a slit that precedes it
LastIsUntouched == Done /\ k > 0 /\ Emits(path[k]) =>
    lights[Len(lights)].n = 0 /\ \A z \in Zones : lights[Len(lights)].rad[z] = Emis(path[k], z)
=============================================================================
