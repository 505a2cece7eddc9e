---------------------------- MODULE LogLevelsGen ----------------------------
EXTENDS LogLevels, TLC, Json
CONSTANT LEN
VARIABLES hist, id
R(S) == RandomElement(S)
Init == Start /\ hist = <<>> /\ id = 0
Op(o) == [op |-> o, x |-> 0, ts |-> <<>>, debug |-> 0, n |-> 1, plot |-> 0]
Say(r) == hist' = Append(hist, r) /\ UNCHANGED id
Bool(b) == IF b THEN 1 ELSE 0
\* targets: 1, 2 can be observed, 3 and 4 lack a quantity
Targets(k) == TLCEval([i \in 1..k |-> R({i, 5 - i})])
GBegin == id' \in {R(1..100000000)} /\ UNCHANGED <<vars, hist>>
GCall ==
    /\ Len(hist) < LEN
    /\ \E k \in {R(1..16)} : \E x \in {R(Levels)} : \E d \in {R(BOOLEAN)} : \E n \in {R({1, 1, 1, 2})} : \E f \in {R(1..3)} : \E ts \in {Targets(R({1, 2, 3}))} :
       CASE k <= 3 -> Set(x) /\ Say([Op("Set") EXCEPT !.x = x])
         [] k <= 6 -> Disable /\ Say(Op("Disable"))
         [] k <= 8 -> Enable(IF off # 0 THEN off ELSE level) /\ Say(Op("Enable"))
         [] k <= 9 -> AddFile(f) /\ Say([Op("AddFile") EXCEPT !.x = f])
         [] k <= 14 -> Observe(d) /\ Say([Op("Observe") EXCEPT !.ts = ts, !.debug = Bool(d), !.n = n, !.plot = Bool(R(1..8) = 1)])
         [] OTHER -> Pipeline(d, f - 1) /\ Say([Op("Pipeline") EXCEPT !.ts = ts, !.x = f - 1, !.debug = Bool(d), !.n = n])
Next == IF id = 0 THEN GBegin ELSE GCall
Out == (id # 0 /\ Len(hist) = LEN) => PrintT("CASE " \o ToJson([id |-> id, ops |-> hist]))
=============================================================================
