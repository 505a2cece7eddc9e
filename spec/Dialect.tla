------------------------------- MODULE Dialect -------------------------------
(* One instrument can be described in many ways. A description gives every
   quantity in some unit (an amount, a fraction <<n, d>>, of that unit), every
   flat quantity as a number or as a table, the parts of a section in some
   order and the channels in some order. What a channel does depends on what
   is said of the common part and of that channel, not on the way of saying it
   nor on the other channels.

   desc    place (section and name) -> [kind, amount, unit, form]
   order   channels present, in the order of the description
   mixing  the order of the parts in each section (any number: a seed)
   known   what was seen: [of: meaning of a channel, table]                  *)
EXTENDS Num, FiniteSets, TLC
VARIABLES desc, order, mixing, known
vars == <<desc, order, mixing, known>>

\* sizes of the units of a kind in its base unit, as fractions
Units == [length |-> [nm |-> <<1, 1000>>, um |-> <<1, 1>>, micron |-> <<1, 1>>, mm |-> <<1000, 1>>, cm |-> <<10000, 1>>, Angstrom |-> <<1, 10000>>],
          area |-> [m2 |-> <<1, 1>>, cm2 |-> <<1, 10000>>, dm2 |-> <<1, 100>>],
          rate |-> [s |-> <<1, 1>>, min |-> <<1, 60>>, h |-> <<1, 3600>>],
          freq |-> [Hz |-> <<1, 1>>, mHz |-> <<1, 1000>>, permin |-> <<1, 60>>],
          time |-> [s |-> <<1, 1>>, min |-> <<60, 1>>, ms |-> <<1, 1000>>, h |-> <<3600, 1>>],
          temp |-> [K |-> <<1, 1>>, mK |-> <<1, 1000>>],
          angle |-> [sr |-> <<1, 1>>, msr |-> <<1, 1000>>],
          radiance |-> [um |-> <<1, 1>>, nm |-> <<1000, 1>>, cm |-> <<1, 1>>],
          number |-> [one |-> <<1, 1>>]]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Frac(n, d) == LET g == Gcd(n, d) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
Times(a, b) == LET g == Gcd(a[1], b[2])  h == Gcd(b[1], a[2])
               IN IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>>
                  ELSE Frac((a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g))
Size(w) == Units[w.kind][w.unit]
Value(w) == Times(w.amount, Size(w))
Said(w, un) == [w EXCEPT !.unit = un, !.amount = Times(Value(w), <<Units[w.kind][un][2], Units[w.kind][un][1]>>)]

\* what is said of a channel: its own section and the common one
Meaning(c) == {<<p, Value(desc[p])>> : p \in {p \in DOMAIN desc : p[1] \in {"common", c}}}

Nowhere == desc = <<>> /\ order = <<>> /\ mixing = 0 /\ known = {}
Describe(d, chans) == desc' = d /\ order' = chans /\ mixing' = 0 /\ known' = {}
Reword(p, un) == /\ p \in DOMAIN desc /\ un \in DOMAIN Units[desc[p].kind]
                 /\ desc' = [desc EXCEPT ![p] = Said(@, un)] /\ UNCHANGED <<order, mixing, known>>
Retell(u) == /\ DOMAIN u = DOMAIN desc /\ desc' = [p \in DOMAIN desc |-> Said(desc[p], u[p])]
             /\ UNCHANGED <<order, mixing, known>>
\* a flat quantity given by a number or by a table
Reform(p, f) == /\ p \in DOMAIN desc /\ desc[p].form \in {"number", "table"} /\ f \in {"number", "table"}
                /\ desc' = [desc EXCEPT ![p].form = f] /\ UNCHANGED <<order, mixing, known>>
Mix(m) == mixing' = m /\ UNCHANGED <<desc, order, known>>
Arrange(chans) == chans # <<>> /\ order' = chans /\ UNCHANGED <<desc, mixing, known>>
\* another instrument
Alter(p, n, d) == /\ p \in DOMAIN desc /\ desc' = [desc EXCEPT ![p].amount = Times(@, <<n, d>>)]
                  /\ UNCHANGED <<order, mixing, known>>
\* the channels are built and a star observed; tables: channel -> what is found
Observe(tables) ==
    /\ order # <<>>
    /\ known' = known \cup {[of |-> Meaning(order[i]), table |-> tables[order[i]]] :
                   i \in {i \in 1..Len(order) : \A k \in known : k.of # Meaning(order[i])}}
    /\ UNCHANGED <<desc, order, mixing>>
-----------------------------------------------------------------------------
\* the way of saying changes no meaning
SameMeaning == [][(DOMAIN desc' = DOMAIN desc /\ known' = known /\ \A p \in DOMAIN desc : desc'[p].unit # desc[p].unit \/ desc'[p].amount = desc[p].amount)
                  => \A p \in DOMAIN desc : Value(desc'[p]) = Value(desc[p])]_vars
OneTable == \A k, j \in known : k.of = j.of => k.table = j.table
=============================================================================
