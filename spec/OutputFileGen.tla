---------------------------- MODULE OutputFileGen ----------------------------
EXTENDS OutputFile, TLC, Json
CONSTANTS LEN, NP
VARIABLES hist, pays, id
R(S) == RandomElement(S)
FrgLists == {<<>>, <<"zodiacal">>, <<"dust">>, <<"zodiacal", "dust">>, <<"dust", "zodiacal">>, <<"glow", "dust">>, <<"dust", "zodiacal", "glow">>}
Pay(i) == [frgs |-> R(FrgLists), R |-> R({61, 97}), source |-> R({"planck", "planck", "custom"}), needs |-> {},
           chans |-> R({<<"phot">>, <<"spec">>, <<"phot", "spec">>, <<"spec", "phot">>, <<"slit", "phot">>, <<"phot", "phot">>, <<"spec", "slit", "phot">>}),
           cnoise |-> R(0..2), zmap |-> R(0..1), force |-> R({"absent", "True", "False"}), style |-> R(0..2), qe |-> R({"value", "file"})]
Lists == <<<<1>>, <<2, 3>>, <<3, 1>>>>
Xml(i) == <<"in", "p" \o ToString(i) \o ".xml">>
Csv(i) == <<"in", "l" \o ToString(i) \o ".csv">>
Outs == {<<"a", "run.h5">>, <<"b", "run.h5">>, <<"a", "two.hdf5">>, <<"in", "run.h5">>}
Init == Nothing /\ hist = <<>> /\ pays = <<>> /\ id = 0
GSetup == \E n \in {R(1..NP)} : \E P \in {TLCEval([i \in 1..n |-> TLCEval(Pay(i))])} :
    /\ Setup([pays |-> [i \in 1..n |-> P[i].chans], lists |-> Lists],
             [f \in {Xml(i) : i \in 1..n} \cup {Csv(i) : i \in 1..Len(Lists)} |->
                IF \E i \in 1..n : f = Xml(i) THEN Text("xml", CHOOSE i \in 1..n : f = Xml(i)) ELSE Text("csv", CHOOSE i \in 1..Len(Lists) : f = Csv(i))])
    /\ hist' = <<>> /\ pays' = P /\ id' \in {R(1..100000000)}
Op(o) == [op |-> o, opt |-> <<>>, lst |-> <<>>, out |-> <<>>, append |-> 0, g |-> "", v |-> 0, replace |-> 0, contrib |-> 0, objects |-> 0, plot |-> 0, k |-> 0, t |-> 0]
Say(r) == hist' = Append(hist, r) /\ UNCHANGED <<pays, id>>
Files(kind) == {f \in DOMAIN disk : disk[f].kind = kind}
Saved == {f \in Files("h5") : disk[f].pay # 0}
AnOpt(k) == IF Saved # {} /\ k > 2 THEN R(Saved) ELSE IF k = 1 THEN R(DOMAIN disk) ELSE R(Files("xml"))
AnOut(k, opt, lst) == IF k = 1 THEN opt ELSE IF k = 2 THEN R({lst, opt}) ELSE IF k < 6 /\ Files("h5") # {} THEN R(Files("h5")) ELSE R(Outs)
GWrite(f, a, g, v) == Write(f, a, g, v) /\ Say([Op("Write") EXCEPT !.out = f, !.append = IF a THEN 1 ELSE 0, !.g = g, !.v = v])
GPrepare(opt, out) == (IF CanPrepare(opt, out) THEN Prepare(opt, out) ELSE PrepareFails(opt, out)) /\ Say([Op("Prepare") EXCEPT !.opt = opt, !.out = out])
GObserve(k, t) == Observe(k, t) /\ Say([Op("Observe") EXCEPT !.k = k, !.t = t])
GRebuild(k) == (IF mem[k].loaded THEN Rebuild(k) ELSE FALSE) /\ Say([Op("Rebuild") EXCEPT !.k = k])
GPipeline(opt, lst, out, r, c, o) ==
    /\ IF CanRun(opt, lst, out, r) THEN Pipeline(opt, lst, out, r, c, o = 1 /\ Described(opt)) ELSE UNCHANGED vars
    /\ Say([Op("Pipeline") EXCEPT !.opt = opt, !.lst = lst, !.out = out, !.replace = IF r THEN 1 ELSE 0, !.contrib = c,
                                  !.objects = IF Described(opt) /\ Dir(opt) = "in" /\ CanRun(opt, lst, out, r) THEN o ELSE 0, !.plot = IF R(1..10) = 1 THEN 1 ELSE 0])
GCall ==
    /\ conf # <<>> /\ Len(hist) < LEN
    /\ \E k \in {R(1..12)} : \E j \in {R(1..8)} : \E m \in {R(1..8)} : \E a \in {R(BOOLEAN)} : \E t \in {R(1..3)} : \E c \in {R({0, 0, 1})} : \E o \in {R({0, 0, 0, 0, 1})} :
       \E opt \in {AnOpt(j)} : \E lst \in {R(Files("csv"))} : \E out \in {AnOut(m, opt, lst)} :
       CASE k <= 4 -> GPipeline(opt, lst, out, a, c, o)
         [] k <= 6 \/ (mem = <<>> /\ k # 12) -> GPrepare(opt, IF m <= 2 THEN <<>> ELSE IF R(1..6) = 1 THEN out ELSE R(Outs))
         [] k <= 9 -> \E q \in {R(IF \E n \in DOMAIN mem : mem[n].loaded THEN {n \in DOMAIN mem : mem[n].loaded} ELSE DOMAIN mem)} : GObserve(q, t)
         [] k <= 10 -> \E q \in {R(DOMAIN mem)} : IF mem[q].loaded THEN GRebuild(q) ELSE GObserve(q, t)
         [] OTHER -> GWrite(R(Outs), a, "g" \o ToString(Len(hist)), m)
Next == IF conf = <<>> THEN GSetup ELSE GCall
Out == (conf # <<>> /\ Len(hist) = LEN) => PrintT("CASE " \o ToJson([id |-> id, units |-> id % 7, pays |-> pays, ops |-> hist, lists |-> Lists]))
=============================================================================
