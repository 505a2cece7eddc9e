-------------------------------- MODULE Signal --------------------------------
(* Creating signals: which inputs are accepted and what they become.

   An input is [form: "list", "array", "column" or "quantity", unit, shape, vals];
   lists and arrays have no unit (""), a column may have none.
   A unit is [dim, num, den]: num/den times the first unit of its dimension.

   made   the signals created so far: [kind, wl, data, time], each of the three
          being numbers times den, den coming with them: the value is vals/den      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES made
vars == <<made>>
Unit(d, n, k) == [dim |-> d, num |-> n, den |-> k]
UNITS == [x \in {"um", "nm", "mm", "m", "AA", "km", "s", "min", "h", "d", "K", "1", "%", "mol",
                 "ct/s", "ct/min", "ct/h", "1/s", "h^", "s^",
                 "sed", "sed.nm", "sed.cgs", "sed.m", "rad", "rad.nm", "rad.cgs"} |->
    CASE x = "um" -> Unit("length", 1, 1) [] x = "nm" -> Unit("length", 1, 1000) [] x = "mm" -> Unit("length", 1000, 1)
      [] x = "m" -> Unit("length", 1000000, 1) [] x = "AA" -> Unit("length", 1, 10000) [] x = "km" -> Unit("length", 1000000000, 1)
      [] x = "h" -> Unit("time", 1, 1) [] x = "min" -> Unit("time", 1, 60) [] x = "s" -> Unit("time", 1, 3600) [] x = "d" -> Unit("time", 24, 1)
      [] x = "K" -> Unit("temperature", 1, 1) [] x = "mol" -> Unit("amount", 1, 1)
      [] x = "1" -> Unit("none", 1, 1) [] x = "%" -> Unit("none", 1, 100)
      [] x = "ct/s" -> Unit("rate", 1, 1) [] x = "ct/min" -> Unit("rate", 1, 60) [] x = "ct/h" -> Unit("rate", 1, 3600) [] x = "1/s" -> Unit("frequency", 1, 1)
      [] x = "h^" -> Unit("root", 1, 1) [] x = "s^" -> Unit("root", 1, 60)
      [] x = "sed" -> Unit("sed", 1, 1) [] x = "sed.nm" -> Unit("sed", 1000, 1) [] x = "sed.cgs" -> Unit("sed", 1, 1000) [] x = "sed.m" -> Unit("sed", 1, 1000000)
      [] x = "rad" -> Unit("rad", 1, 1) [] x = "rad.nm" -> Unit("rad", 1000, 1) [] OTHER -> Unit("rad", 1, 1000)]
\* the fixed units: of the data by the kind of signal, of wavelengths and times
Fixed(kind, part) == IF part = "wl" THEN "um" ELSE IF part = "time" THEN "h"
    ELSE CASE kind = "Signal" -> "1" [] kind = "CountsPerSeconds" -> "ct/s" [] kind = "Noise" -> "h^" [] kind = "Sed" -> "sed" [] kind = "Radiance" -> "rad" [] OTHER -> "K"
Converts(in, fixed) == IF in.unit = "" THEN TRUE ELSE UNITS[in.unit].dim = UNITS[fixed].dim
\* in fixed units, which are the first of their dimension
Den(in) == IF in.unit = "" THEN 1 ELSE UNITS[in.unit].den
Become(in) == [i \in 1..Len(in.vals) |-> in.vals[i] * (IF in.unit = "" THEN 1 ELSE UNITS[in.unit].num)]
Units(kind, wl, data, time) == Converts(wl, Fixed(kind, "wl")) /\ Converts(data, Fixed(kind, "data")) /\ Converts(time, Fixed(kind, "time"))
Shapes(wl, data, time) ==
    /\ Len(wl.shape) = 1 /\ Len(time.shape) = 1 /\ Len(data.shape) \in {1, 2}
    /\ data.shape[1] = wl.shape[1]
    /\ IF Len(data.shape) = 2 THEN data.shape[2] = time.shape[1] ELSE time.shape[1] = 1
Accepted(kind, wl, data, time) == Units(kind, wl, data, time) /\ Shapes(wl, data, time)
Part(in) == [vals |-> Become(in), den |-> Den(in), shape |-> in.shape]
Create(kind, wl, data, time) ==
    /\ Accepted(kind, wl, data, time) = TRUE
    /\ made' = Append(made, [kind |-> kind, wl |-> Part(wl), data |-> Part(data), time |-> Part(time)])
Refuse(kind, wl, data, time) == Accepted(kind, wl, data, time) = FALSE /\ UNCHANGED vars
\* every signal that exists has consistent axes
Size(shape) == IF Len(shape) = 1 THEN shape[1] ELSE shape[1] * shape[2]
Consistent == \A i \in 1..Len(made) : LET s == made[i] IN
    /\ Len(s.wl.vals) = s.data.shape[1] /\ Len(s.data.vals) = Size(s.data.shape)
    /\ Len(s.data.vals) = Len(s.wl.vals) * Len(s.time.vals)
=============================================================================
