----------------------------- MODULE DialectGen -----------------------------
(* histories of describing one instrument again and again *)
EXTENDS Dialect, Json
CONSTANT LEN
VARIABLES hist, id, base
R(S) == RandomElement(S)
W(k, n, d) == [kind |-> k, amount |-> Frac(n, d), unit |-> R(DOMAIN Units[k]), form |-> "number"]
V(k, n, d) == LET w == TLCEval(W(k, n, d)) IN [w EXCEPT !.amount = Times(<<n, d>>, <<Units[k][w.unit][2], Units[k][w.unit][1]>>)]
Only(w) == [w EXCEPT !.form = "fixed"]
Section(s, f) == [p \in {<<s, x>> : x \in DOMAIN f} |-> f[p[2]]]
Common(z) == Section("common", [wl_min |-> V("length", 1, 1), wl_max |-> V("length", 8, 1), atel |-> V("area", R({1, 2}), 2),
    mirrorT |-> V("temp", R({120, 300}), 1), mirrort |-> W("number", R({5, 9}), 10), mirrore |-> W("number", 1, R({2, 20})),
    filewl |-> V("length", 1, 1), skywl |-> V("length", 1, 1), skyrad |-> V("radiance", 1, R({1, 1000}))])
Chan(s, z) == Section(s, [wl_min |-> V("length", R({1503, 2103}), 1000), wl_max |-> V("length", R({3107, 3803, 6993}), 1000), pix |-> V("length", R({3, 5}), 1),
    dwl |-> V("length", 11, 10), cut |-> V("length", 79, 10), dark |-> V("rate", R({0, 1, 7}), 1), freq |-> V("freq", R({0, 1, 5}), 10), ft |-> V("time", R({0, 0, 60, 90}), 1),
    bandlo |-> V("length", 17, 10), bandhi |-> V("length", 61, 10), glassT |-> V("temp", R({90, 250}), 1), glasst |-> W("number", R({1, 7}), 8), glasse |-> W("number", 1, R({2, 10})),
    sa |-> V("angle", R({0, 3}), 10), boxT |-> V("temp", R({80, 150}), 1), qe |-> W("number", R({1, 2}), 4), qewl |-> V("length", 1, 1),
    solwl |-> V("length", 1, 1), solx |-> V("length", 1, 1), slit |-> V("length", R({0, 21, 34}), 1)])
Names == {"Phot", "Spec", "Zoom"}
Orders == {o \in UNION {[1..k -> Names] : k \in 1..3} : \A i, j \in 1..Len(o) : i # j => o[i] # o[j]}
\* places whose change leaves an instrument that works
Free == {"atel", "mirrorT", "mirrort", "mirrore", "skyrad", "pix", "dark", "ft", "freq", "glassT", "glasst", "glasse", "sa", "boxT", "qe"}
Rows(d) == LET ps == DOMAIN d IN {[sec |-> p[1], name |-> p[2], kind |-> d[p].kind, amount |-> d[p].amount, unit |-> d[p].unit, form |-> d[p].form] : p \in ps}
Op(o) == [op |-> o, sec |-> "", name |-> "", unit |-> "", n |-> 0, d |-> 1, chans |-> <<>>, amount |-> <<0, 1>>, units |-> {}]
GBegin == /\ id' \in {R(1..100000000)} /\ hist' = <<>>
          /\ \E z \in {R(1..1000)} : \E d \in {TLCEval(Common(z) @@ Chan("Phot", z) @@ Chan("Spec", z + 1) @@ Chan("Zoom", z + 2))} : \E o \in {R(Orders)} :
                Describe(d, o) /\ base' = [rows |-> Rows(d), chans |-> o]
Say(r) == hist' = Append(hist, r) /\ UNCHANGED <<id, base>>
At(o, p) == [Op(o) EXCEPT !.sec = p[1], !.name = p[2]]
Here == {p \in DOMAIN desc : p[1] = "common" \/ \E i \in 1..Len(order) : order[i] = p[1]}
GCall ==
    /\ Len(hist) < LEN
    /\ \E k \in {R(1..16)} : \E p \in {R(Here)} : \E m \in {R(1..1000)} : \E o \in {R(Orders)} :
       CASE Len(hist) \in {0, LEN - 1} \/ k <= 3 -> Observe([c \in Names |-> <<>>]) /\ Say(Op("Observe"))
         [] k <= 9 -> \E u \in {TLCEval([q \in DOMAIN desc |-> R(DOMAIN Units[desc[q].kind])])} :
                         Retell(u) /\ Say([Op("Retell") EXCEPT !.units = {[sec |-> q[1], name |-> q[2], unit |-> u[q], amount |-> Said(desc[q], u[q]).amount] : q \in DOMAIN desc}])
         [] k <= 11 -> \E un \in {R(DOMAIN Units[desc[p].kind])} : Reword(p, un) /\ Say([At("Reword", p) EXCEPT !.unit = un, !.amount = Said(desc[p], un).amount])
         [] k = 12 -> \E q \in {R({q \in Here : desc[q].kind = "number"})} : \E f \in {R({"number", "table"})} : Reform(q, f) /\ Say([At("Reform", q) EXCEPT !.unit = f])
         [] k = 13 -> Mix(m) /\ Say([Op("Mix") EXCEPT !.n = m])
         [] k = 14 -> Arrange(o) /\ Say([Op("Arrange") EXCEPT !.chans = o])
         [] OTHER -> \E q \in {R({q \in Here : q[2] \in Free})} : \E up \in {R(BOOLEAN)} :
                       LET n == IF up /\ desc[q].kind # "number" THEN 2 ELSE 1  d == IF up THEN 1 ELSE 2
                       IN Alter(q, n, d) /\ Say([At("Alter", q) EXCEPT !.n = n, !.d = d, !.amount = Times(desc[q].amount, <<n, d>>)])
Init == Nowhere /\ hist = <<>> /\ id = 0 /\ base = <<>>
Next == IF id = 0 THEN GBegin ELSE GCall
Out == (id # 0 /\ Len(hist) = LEN) => PrintT("CASE " \o ToJson([id |-> id, base |-> base, ops |-> hist]))
=============================================================================
