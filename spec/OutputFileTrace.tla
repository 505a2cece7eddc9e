--------------------------- MODULE OutputFileTrace ---------------------------
(* Recorded files and payloads of the real code against OutputFile.
   After every call disk is what is in the directories: descriptions, lists,
   saved payloads and written targets named by comparison with the originals,
   -1 when they are none of them.
     Setup    [pays, lists, disk]
     Write    [f, append, g, v, out]
     Prepare  [opt, to, out, loaded, desc, table, built, range, channels]
     Observe  [k, t, out, groups, other, meta]
     Rebuild  [k, out]
     Pipeline [opt, lst, to, replace, contrib, objects, out]                   *)
EXTENDS OutputFile, Conformance
VARIABLES l, bad, skip
TInit == Nothing /\ l = 0 /\ bad = <<>> /\ skip = FALSE
E == Log[l + 1]
At == l + 1
Ev(e) == l < Len(Log) /\ ~skip /\ E.ev = e /\ l' = At
SetOf(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Got == [f \in {<<E.disk[i].d, E.disk[i].b>> : i \in 1..Len(E.disk)} |->
           LET r == CHOOSE x \in SetOf(E.disk) : <<x.d, x.b>> = f IN
           [kind |-> r.kind, id |-> r.id, info |-> r.info, pay |-> r.pay, tgts |-> SetOf(r.tgts), extra |-> SetOf(r.extra)]]
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = At /\ skip' = FALSE /\ bad' = bad /\ conf' = <<>> /\ disk' = <<>> /\ mem' = <<>>
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = At /\ skip' = TRUE /\ UNCHANGED vars
          /\ bad' = bad \o Fail(At, "X.crash", "a result", E.error)
TSetup == Ev("Setup") /\ Setup([pays |-> E.pays, lists |-> E.lists], Got) /\ UNCHANGED <<bad, skip>>

\* -- differences between the files of the specification (d) and those found (g) -----
One(f, d, g, out, opt, lst) ==
    IF f \in DOMAIN d /\ f \notin DOMAIN g
    THEN Fail(At, IF f \in {opt, lst} THEN "C18.input" ELSE IF f = out THEN "C18.written" ELSE IF f \in DOMAIN disk THEN "C18.kept" ELSE "C18.copies", f, "not there")
    ELSE IF f \notin DOMAIN d THEN Fail(At, "C18.files", "not there", f)
    ELSE IF d[f] = g[f] THEN <<>>
    ELSE IF f # out THEN Fail(At, IF f \in {opt, lst} THEN "C18.input" ELSE IF f \in DOMAIN disk /\ disk[f] = d[f] THEN "C18.kept" ELSE "C18.copies", <<f, d[f]>>, g[f])
    ELSE Diff(At, "C18.kind", d[f].kind, g[f].kind) \o Diff(At, "C18.info", d[f].info, g[f].info) \o Diff(At, "C18.payload", d[f].pay, g[f].pay)
         \o Diff(At, IF f \in DOMAIN disk /\ disk[f].tgts # {} THEN "C18.kept.targets" ELSE "C18.targets", d[f].tgts, g[f].tgts)
         \o (IF \E i \in 1..Len(E.disk) : E.disk[i].why # "" /\ <<E.disk[i].d, E.disk[i].b>> = f
             THEN Fail(At, "C18.content", "", (CHOOSE x \in SetOf(E.disk) : <<x.d, x.b>> = f).why) ELSE <<>>)
         \o Diff(At, "C18.kept.groups", d[f].extra, g[f].extra)
RECURSIVE Each(_, _, _, _, _, _)
Each(S, d, g, out, opt, lst) == IF S = {} THEN <<>> ELSE LET f == CHOOSE x \in S : TRUE IN One(f, d, g, out, opt, lst) \o Each(S \ {f}, d, g, out, opt, lst)
Files(d, out, opt, lst) == Each(DOMAIN d \cup DOMAIN Got, d, Got, out, opt, lst)
\* go on only from what was found to be right
Go(found) == bad' = bad \o found /\ skip' = (found # <<>>)

TWrite == /\ Ev("Write")
          /\ IF E.out = "ok" THEN Write(E.f, E.append = 1, E.g, E.v) /\ Go(Files(disk', E.f, <<>>, <<>>))
             ELSE UNCHANGED vars /\ Go(Fail(At, "C18.open", "ok", E.out))
TPrepare ==
    /\ Ev("Prepare")
    /\ IF CanPrepare(E.opt, E.to) = FALSE
       THEN /\ PrepareFails(E.opt, E.to)
            /\ Go((IF E.out # "ok" THEN <<>> ELSE Fail(At, "C18.prepare", "an error", "ok")) \o Files(disk, E.to, E.opt, <<>>))
       ELSE IF E.out # "ok" THEN UNCHANGED vars /\ Go(Fail(At, IF Described(E.opt) THEN "C18.prepare" ELSE "C16.load", "ok", E.out))
       ELSE LET p == PayOf(E.opt) IN
            /\ Prepare(E.opt, E.to)
            /\ Go(Files(disk', E.to, E.opt, <<>>)
                  \o Cat([i \in 1..4 |-> LET c == <<"desc", "table", "built", "range">>[i] IN
                          IF p \in SetOf(E[c]) THEN <<>> ELSE Fail(At, "C16." \o c, <<"payload", p>>, <<E[c], E.why>>)])
                  \o Diff(At, "C16.channels", E.names[p], E.channels))
TObserve == /\ Ev("Observe") /\ Observe(E.k, E.t)
            /\ Go(LET p == mem[E.k].p IN
                  IF E.out # "ok" THEN Fail(At, "C16.observe", "ok", E.out)
                  ELSE Cat([i \in 1..4 |-> LET g == <<"chan", "forelight", "starlight", "noise">>[i] IN
                            IF p \in SetOf(E.groups[g]) \/ (g = "forelight" /\ -1 \in SetOf(E.groups[g])) THEN <<>>
                            ELSE Fail(At, "C16.observe." \o g, <<"payload", p>>, E.groups[g])])
                       \o (IF E.other = <<>> THEN <<>> ELSE Fail(At, "C16.observe.columns", "no other", E.other))
                       \o (IF p \in SetOf(E.meta) THEN <<>> ELSE Fail(At, "C16.observe.meta", p, E.meta)))
TRebuild == Ev("Rebuild") /\ Rebuild(E.k) /\ Go(Diff(At, "C16.rebuild", "ValueError", E.out))
Loaded(opt) == In(opt) /\ disk[opt].kind = "h5"
TPipeline ==
    /\ Ev("Pipeline")
    /\ LET r == E.replace = 1 o == E.objects = 1 can == CanRun(E.opt, E.lst, E.to, r) IN
       IF can /\ E.out = "ok"
       THEN /\ Pipeline(E.opt, E.lst, E.to, r, E.contrib, o)
            /\ LET found == Files(disk', E.to, E.opt, E.lst) IN
               Go(found \o (IF Loaded(E.opt) /\ E.to \in DOMAIN Got /\ Got[E.to].tgts # disk'[E.to].tgts
                            THEN Fail(At, "C16.pipeline", disk'[E.to].tgts, Got[E.to].tgts) ELSE <<>>))
       ELSE IF can THEN UNCHANGED vars /\ Go(Fail(At, "C18.run", "ok", E.out) \o (IF Loaded(E.opt) THEN Fail(At, "C16.pipeline", "ok", E.out) ELSE <<>>))
       ELSE IF E.out = "ok" THEN UNCHANGED vars /\ Go(Fail(At, "C18.refused", "an error", "ok") \o Files(disk, E.to, E.opt, E.lst))
       ELSE LET d == Got
                wrong == {f \in DOMAIN disk \cup DOMAIN d : Partly(f, d, E.opt, E.lst, E.to, r, E.contrib) = FALSE} IN
            IF wrong = {} THEN PipelineFails(E.opt, E.lst, E.to, r, E.contrib, d) /\ Go(<<>>)
            ELSE UNCHANGED vars
                 /\ Go(LET f == CHOOSE x \in wrong : TRUE IN
                       Fail(At, IF f \in {E.opt, E.lst} THEN "C18.input.refused" ELSE "C18.kept.refused",
                            <<f, IF f \in DOMAIN disk THEN ToString(disk[f]) ELSE "not there">>, IF f \in DOMAIN d THEN ToString(d[f]) ELSE "not there"))
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = At /\ UNCHANGED <<vars, bad, skip>>
TStep == TReset \/ TCrash \/ TSetup \/ TWrite \/ TPrepare \/ TObserve \/ TRebuild \/ TPipeline \/ TSkip
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep /\ l' = At /\ skip' = TRUE
        /\ bad' = bad \o Fail(At, "X.history", "a step of the specification", E) /\ UNCHANGED vars
TNext == TStep \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
