---------------------------- MODULE ObservationGen ----------------------------
EXTENDS Observation, TLC, Json, SequencesExt
CONSTANTS LEN, NP, NT
VARIABLES hist, extra, id
R(S) == RandomElement(S)
FrgLists == {<<>>, <<"zodiacal">>, <<"dust">>, <<"zodiacal", "dust">>, <<"dust", "zodiacal">>, <<"glow", "dust">>, <<"dust", "zodiacal", "glow">>}
Pay(i) == LET s == R({"planck", "planck", "custom"}) IN
       [frgs |-> R(FrgLists), R |-> R({61, 97}), source |-> s,
        needs |-> IF s = "custom" THEN {"D", "R"} ELSE {"D", "R", "M", "Teff"},
        chans |-> R({<<"phot">>, <<"spec">>, <<"phot", "spec">>, <<"spec", "phot">>, <<"slit", "phot">>, <<"phot", "phot">>, <<"spec", "slit">>}),
        cnoise |-> R(0..2), zmap |-> R(0..1), force |-> R({"absent", "True", "False"})]
Quantities == {"D", "R", "M", "Teff"}
Tgt(i) == [has |-> IF R(1..5) < 4 THEN Quantities ELSE Quantities \ {R(Quantities)}, kind |-> R(1..4), lack |-> R(0..5)]
Init == Nothing /\ hist = <<>> /\ extra = [reuse |-> 0] /\ id = 0
GSetup == \E n \in {R(1..NP)} : \E m \in {R(2..NT)} : \E P \in {TLCEval([i \in 1..n |-> TLCEval(Pay(i))])} : \E T \in {TLCEval([i \in 1..m |-> TLCEval(Tgt(i))])} :
          Setup(P, T) /\ hist' = <<>> /\ extra' = [reuse |-> R(0..1)] /\ id' \in {R(1..100000000)}
Some(n) == TLCEval(LET s == SetToSeq(DOMAIN tgts) k == R(1..Len(s)) o == R(0..Len(s) - 1)
                IN SubSeq([i \in 1..Len(s) |-> s[((i + o - 1) % Len(s)) + 1]], 1, k))
Say(r) == hist' = Append(hist, r) /\ UNCHANGED <<extra, id>>
GObserve(t, p) == Observe(t, p) /\ Say([op |-> "Observe", t |-> t, p |-> p, ts |-> <<>>, workers |-> 0, step |-> "", debug |-> 0, plot |-> 0, contrib |-> 0])
GStep(t, p, i) == Step(t, p, i) /\ Say([op |-> "Step", t |-> t, p |-> p, ts |-> <<>>, workers |-> 0, step |-> Steps(p)[i], debug |-> 0, plot |-> 0, contrib |-> 0])
GBrighten(t) == Brighten(t) /\ Say([op |-> "Brighten", t |-> t, p |-> at[t][1], ts |-> <<>>, workers |-> 0, step |-> "", debug |-> 0, plot |-> 0, contrib |-> 0])
GList(ts, p, w) == ObserveList(ts, p, w) /\ Say([op |-> "List", t |-> 0, p |-> p, ts |-> ts, workers |-> w, step |-> "", debug |-> R(0..1), plot |-> IF R(1..12) = 1 THEN 1 ELSE 0, contrib |-> 0])
GPipeline(ts, p, w) == Pipeline(ts, p, 1) /\ Say([op |-> "Pipeline", t |-> 0, p |-> p, ts |-> ts, workers |-> w, step |-> "", debug |-> R(0..1), plot |-> IF R(1..12) = 1 THEN 1 ELSE 0, contrib |-> R(0..1)])
\* mostly go on with an observation under way, or repeat one of its steps
GCall == /\ pays # <<>> /\ Len(hist) < LEN
        /\ \E k \in {R(1..12)} : \E t \in {R(DOMAIN tgts)} : \E p \in {R(DOMAIN pays)} : \E ts \in {Some(k)} : \E w \in {R({1, 1, 2, 3})} :
           CASE k <= 3 -> GObserve(t, p)
             [] k <= 5 -> GList(ts, p, w)
             [] k = 6 -> GPipeline(ts, p, w)
             [] k = 7 -> GStep(t, p, 1)
             [] OTHER -> IF \A u \in DOMAIN tgts : at[u] = <<>> THEN GObserve(t, p)
                         ELSE \E v \in {R(LET B == {u \in DOMAIN tgts : Loaded(u) /\ src[u][4] = 2} IN IF B # {} /\ R(1..3) > 1 THEN B ELSE {u \in DOMAIN tgts : at[u] # <<>>})} :
                              LET q == at[v][1] n == at[v][2] m == Len(Steps(q)) IN
                              \E i \in {IF n < m /\ R(1..3) > 1 THEN n + 1 ELSE R(1..n)} :
                              IF Loaded(v) /\ src[v][4] = 1 /\ R(1..3) = 1 THEN GBrighten(v)
                              ELSE IF Loaded(v) /\ src[v][4] = 2 /\ n > Index(q, "source") /\ R(1..4) > 1 THEN GStep(v, q, R(Index(q, "source") + 1..n))
                              ELSE IF Steps(q)[i] = "source" /\ Fails(v, q) THEN GObserve(t, p) ELSE GStep(v, q, i)
Next == IF pays = <<>> THEN GSetup ELSE GCall
Out == (pays # <<>> /\ Len(hist) = LEN) => PrintT("CASE " \o ToJson([id |-> id, units |-> id % 7, pays |-> pays, tgts |-> tgts, ops |-> hist, reuse |-> extra.reuse]))
=============================================================================
