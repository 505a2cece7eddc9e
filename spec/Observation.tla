----------------------------- MODULE Observation -----------------------------
(* Observing targets with payloads: single targets, lists, the whole pipeline.

   pays   the payloads in use: [frgs: foreground names in order, R: working
          resolution, needs: the star quantities its source needs]
   tgts   the target objects: [has: star quantities known, kind: which star]
   res    the working resolution in force in the process (process wide)
   tab    per target object, the results its table holds, by group of columns:
          "chan" (the channels' columns), "forelight", "starlight", "noise".
          A result is the record of everything it was computed from
   sky    per target object, the foregrounds estimated for it, in order
   src    per target object, the source spectrum loaded: <<kind, payload, R, gain>>;
          the gain is 1, and 2 when the spectrum has been made brighter since
   at     per target object, the observation under way: <<payload, steps done>>
   files  what the output files hold: target index -> table
   given  the results returned for lists so far: they are the caller's, and
          nothing that is observed later changes them

   Every action below is one call of the public API.  An observation is the
   sequence of its steps; whatever was called before, its results must be the
   ones of the same target observed alone (Isolation).                        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES pays, tgts, res, tab, sky, src, at, files, given
vars == <<pays, tgts, res, tab, sky, src, at, files, given>>
Groups == {"chan", "forelight", "starlight", "noise"}
None == [chan |-> <<>>, forelight |-> <<>>, starlight |-> <<>>, noise |-> <<>>]
Steps(p) == IF pays[p].frgs = <<>> THEN <<"prepare", "source", "starlight", "noise">>
            ELSE <<"prepare", "sky", "forelight", "source", "starlight", "noise">>
Fails(t, p) == ~ (pays[p].needs \subseteq tgts[t].has)

\* what each step computes from the state it finds
Chan(p) == <<p, pays[p].R>>
Fore(p, s, r) == <<p, s, r>>
Star(p, s, x, r) == <<p, s, x, r>>
\* the star's light with gain g, the noise with gain h
With(t, p, g, h) ==
    LET r == pays[p].R f == pays[p].frgs x(k) == <<tgts[t].kind, p, r, k>>
        a == Chan(p) b == IF f = <<>> THEN <<>> ELSE Fore(p, f, r) c(k) == Star(p, f, x(k), r)
    IN [chan |-> a, forelight |-> b, starlight |-> c(g), noise |-> <<a, b, c(h)>>]
Alone(t, p) == With(t, p, 1, 1)

\* -- one observation, as a function of the state of the target ------------------
Clean == [tab |-> None, sky |-> <<>>, src |-> <<>>]
Do(o, t, p, step) ==
    CASE step = "prepare"   -> [o EXCEPT !.tab = [None EXCEPT !.chan = Chan(p)]]
      [] step = "sky"       -> [o EXCEPT !.sky = pays[p].frgs]               \* estimated anew
      [] step = "forelight" -> [o EXCEPT !.tab.forelight = Fore(p, o.sky, pays[p].R)]
      [] step = "source"    -> [o EXCEPT !.src = <<tgts[t].kind, p, pays[p].R, 1>>]
      [] step = "starlight" -> [o EXCEPT !.tab.starlight = Star(p, o.sky, o.src, pays[p].R)]
      [] step = "noise"     -> [o EXCEPT !.tab.noise = <<o.tab.chan, o.tab.forelight, o.tab.starlight>>]
Of(t) == [tab |-> tab[t], sky |-> sky[t], src |-> src[t]]
Set(t, o) == tab' = [tab EXCEPT ![t] = o.tab] /\ sky' = [sky EXCEPT ![t] = o.sky] /\ src' = [src EXCEPT ![t] = o.src]
\* an observation forgets the foregrounds of an earlier one
Begin(o, p) == IF pays[p].frgs = <<>> THEN [o EXCEPT !.sky = <<>>] ELSE o
RECURSIVE Run(_, _, _, _)
Run(o, t, p, ss) == IF ss = <<>> THEN o ELSE Run(Do(o, t, p, Head(ss)), t, p, Tail(ss))
Upto(p, step) == LET n == CHOOSE i \in 1..Len(Steps(p)) : Steps(p)[i] = step IN SubSeq(Steps(p), 1, n - 1)
Observed(o, t, p) == IF Fails(t, p) THEN Run(Begin(o, p), t, p, Upto(p, "source")) ELSE Run(Begin(o, p), t, p, Steps(p))
Finished(t) == at[t] # <<>> /\ at[t][2] = Len(Steps(at[t][1]))

\* -- the calls -------------------------------------------------------------------
Setup(P, T) == /\ pays' = P /\ tgts' = T /\ res' = 0 /\ tab' = [t \in DOMAIN T |-> None] /\ sky' = [t \in DOMAIN T |-> <<>>]
               /\ src' = [t \in DOMAIN T |-> <<>>] /\ at' = [t \in DOMAIN T |-> <<>>] /\ files' = [f \in 1..1 |-> <<>>] /\ given' = <<>>
Nothing == /\ pays = <<>> /\ tgts = <<>> /\ res = 0 /\ tab = <<>> /\ sky = <<>> /\ src = <<>> /\ at = <<>> /\ files = <<>> /\ given = <<>>
\* one step of an observation: the next one, or one already done
Step(t, p, i) ==
    /\ i \in 1..Len(Steps(p))
    /\ \/ i = 1
       \/ at[t] # <<>> /\ at[t][1] = p /\ i <= at[t][2] + 1
    /\ ~ (Steps(p)[i] = "source" /\ Fails(t, p))
    /\ res' = pays[p].R
    /\ Set(t, Do(IF i = 1 THEN Begin(Of(t), p) ELSE Of(t), t, p, Steps(p)[i]))
    /\ at' = [at EXCEPT ![t] = IF i = 1 THEN <<p, 1>> ELSE <<p, IF i > @[2] THEN i ELSE @[2]>>]
    /\ UNCHANGED <<pays, tgts, files, given>>
\* the user makes the loaded spectrum brighter; a step done again follows
Index(p, step) == CHOOSE i \in 1..Len(Steps(p)) : Steps(p)[i] = step
Loaded(t) == at[t] # <<>> /\ at[t][2] >= Index(at[t][1], "source")
Brighten(t) == /\ Loaded(t) /\ src[t][4] = 1 /\ src' = [src EXCEPT ![t][4] = 2]
               /\ UNCHANGED <<pays, tgts, res, tab, sky, at, files, given>>
\* a whole observation: raises when the target lacks something
Observe(t, p) ==
    /\ res' = pays[p].R
    /\ Set(t, Observed(Of(t), t, p))
    /\ at' = [at EXCEPT ![t] = IF Fails(t, p) THEN <<>> ELSE <<p, Len(Steps(p))>>]
    /\ UNCHANGED <<pays, tgts, files, given>>
\* a list: the targets that can be observed, each as if alone
Fine(ts, p) == {t \in {ts[i] : i \in 1..Len(ts)} : ~ Fails(t, p)}
Returned(ts, p) == SelectSeq(ts, LAMBDA t : ~ Fails(t, p))
ObserveList(ts, p, workers) ==
    /\ res' = IF workers = 1 /\ ts # <<>> THEN pays[p].R ELSE res
    /\ IF workers = 1     \* in this process: the objects themselves
       THEN LET o(t) == IF t \in {ts[i] : i \in 1..Len(ts)} THEN Observed(Of(t), t, p) ELSE Of(t) IN
            /\ tab' = [t \in DOMAIN tab |-> o(t).tab] /\ sky' = [t \in DOMAIN tab |-> o(t).sky]
            /\ src' = [t \in DOMAIN tab |-> o(t).src]
            /\ at' = [t \in DOMAIN at |-> IF t \notin {ts[i] : i \in 1..Len(ts)} THEN at[t]
                                          ELSE IF Fails(t, p) THEN <<>> ELSE <<p, Len(Steps(p))>>]
       ELSE UNCHANGED <<tab, sky, src, at>>     \* in workers: on copies
    /\ given' = given \o [i \in 1..Len(Returned(ts, p)) |->
                           [t |-> Returned(ts, p)[i], p |-> p, tab |-> Observed(Of(Returned(ts, p)[i]), Returned(ts, p)[i], p).tab]]
    /\ UNCHANGED <<pays, tgts, files>>
\* the pipeline loads everything itself and writes what could be observed
Pipeline(ts, p, f) ==
    /\ files' = [files EXCEPT ![f] = [t \in Fine(ts, p) |-> Observed(Clean, t, p).tab]]
    /\ res' = pays[p].R
    /\ UNCHANGED <<pays, tgts, tab, sky, src, at, given>>

\* -- what has to hold ------------------------------------------------------------
Isolation == /\ \A t \in DOMAIN tab : Finished(t) => \E g, h \in 1..2 : tab[t] = With(t, at[t][1], g, h)
             /\ \A f \in DOMAIN files : \A t \in DOMAIN files[f] : \E p \in DOMAIN pays : files[f][t] = Alone(t, p)
             /\ \A i \in DOMAIN given : given[i].tab = Alone(given[i].t, given[i].p)
\* nothing of another observation is ever visible while one is under way
NoTrace == \A t \in DOMAIN tab : at[t] # <<>> =>
              \A g \in Groups : tab[t][g] \in {<<>>} \cup {With(t, at[t][1], k, k)[g] : k \in 1..2}
\* results handed out stay as they are
Kept == [][pays # <<>> => /\ Len(given') >= Len(given)
                          /\ SubSeq(given', 1, Len(given)) = given]_vars
Contained == \A f \in DOMAIN files : \A t \in DOMAIN files[f] : \E p \in DOMAIN pays : ~ Fails(t, p)
=============================================================================
