----------------------------- MODULE OutputFile -----------------------------
(* Output files, payloads saved in them and pipeline runs.

   conf   [pays: payload -> its channels in order, lists: target list -> targets]
   disk   path -> content, a path being <<directory, name>>; a content is
          [kind: "xml" (a payload description), "csv" (a target list) or "h5",
           id: which description or list,
           info: the program information is there (once),
           pay: the payload saved in it (0: none),
           tgts: the observed targets: <<target, payload, contributions>>,
           extra: other groups: <<name, value>>]
   mem    the payloads prepared in this process: [p, loaded]

   Payloads observe alike whether they were built or loaded: what a payload in
   memory is, is its number.                                                  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES conf, disk, mem
vars == <<conf, disk, mem>>
Text(k, i) == [kind |-> k, id |-> i, info |-> 0, pay |-> 0, tgts |-> {}, extra |-> {}]
Empty == [kind |-> "h5", id |-> 0, info |-> 1, pay |-> 0, tgts |-> {}, extra |-> {}]
In(f) == f \in DOMAIN disk
With(d, f, c) == [x \in DOMAIN d \cup {f} |-> IF x = f THEN c ELSE d[x]]
Without(d, f) == [x \in DOMAIN d \ {f} |-> d[x]]
Dir(f) == f[1]
Base(f) == f[2]
Nothing == conf = <<>> /\ disk = <<>> /\ mem = <<>>
Setup(c, d) == conf' = c /\ disk' = d /\ mem' = <<>>

\* -- opening an output file and storing a group in it ---------------------------
Opened(d, f, append) == IF append /\ f \in DOMAIN d THEN d[f] ELSE Empty
Writable(f) == IF In(f) THEN disk[f].kind = "h5" ELSE TRUE
\* (a group that is there already is not stored again)
Write(f, append, g, v) ==
    /\ Writable(f)
    /\ LET o == Opened(disk, f, append) IN
       /\ \A x \in o.extra : x[1] # g
       /\ disk' = With(disk, f, [o EXCEPT !.extra = @ \cup {<<g, v>>}])
    /\ UNCHANGED <<conf, mem>>

\* -- preparing a payload: from its description, or from an output file --------------
PayOf(f) == IF ~In(f) THEN 0 ELSE IF disk[f].kind = "xml" THEN disk[f].id ELSE IF disk[f].kind = "h5" THEN disk[f].pay ELSE 0
Described(f) == In(f) /\ disk[f].kind = "xml"
\* a description is built, and written to the output (if any); an output file is loaded
Saves(d, f, p) == With(d, f, [Opened(d, f, TRUE) EXCEPT !.pay = p])
CanSave(d, f) == f \notin DOMAIN d \/ (d[f].kind = "h5" /\ d[f].pay = 0)
CanPrepare(opt, out) == PayOf(opt) # 0 /\ (Described(opt) /\ out # <<>> => CanSave(disk, out))
Prepare(opt, out) ==
    /\ CanPrepare(opt, out) = TRUE
    /\ disk' = IF Described(opt) /\ out # <<>> THEN Saves(disk, out, PayOf(opt)) ELSE disk
    /\ mem' = Append(mem, [p |-> PayOf(opt), loaded |-> ~Described(opt)])
    /\ UNCHANGED conf
PrepareFails(opt, out) == CanPrepare(opt, out) = FALSE /\ UNCHANGED vars

Observe(k, t) == k \in DOMAIN mem /\ UNCHANGED vars
\* a loaded channel cannot be built again
Rebuild(k) == k \in DOMAIN mem /\ mem[k].loaded /\ UNCHANGED vars

\* -- the pipeline ------------------------------------------------------------------
ListOf(f) == IF In(f) /\ disk[f].kind = "csv" THEN conf.lists[disk[f].id] ELSE <<>>
Asked(opt, lst, c) == {<<ListOf(lst)[i], PayOf(opt), c>> : i \in 1..Len(ListOf(lst))}
\* copies of the inputs beside the output, which they never overwrite
Copied(d, src, out) == LET f == <<Dir(out), Base(src)>> IN IF f = out \/ f = src THEN d ELSE With(d, f, d[src])
\* (a description given as a dictionary has no file to copy)
Copies(opt, lst, out, objects) == Copied(IF objects THEN disk ELSE Copied(disk, opt, out), lst, out)
IsInput(f, opt, lst) == f = opt \/ f = lst
Clash(c, opt, lst) == \E x \in c.tgts : \E i \in 1..Len(ListOf(lst)) : x[1] = ListOf(lst)[i]
\* what the output is when the run starts
Start(out, replace) == IF replace \/ ~In(out) THEN Empty ELSE disk[out]
CanRun(opt, lst, out, replace) ==
    /\ PayOf(opt) # 0 /\ ListOf(lst) # <<>>
    /\ ~ (replace /\ In(out) /\ IsInput(out, opt, lst))
    /\ Start(out, replace).kind = "h5"
    /\ Described(opt) => Start(out, replace).pay = 0
    /\ ~ Clash(Start(out, replace), opt, lst)
Pipeline(opt, lst, out, replace, c, objects) ==
    /\ CanRun(opt, lst, out, replace) = TRUE
    /\ LET s == Start(out, replace) IN
       disk' = With(Copies(opt, lst, out, objects), out,
                    [s EXCEPT !.tgts = @ \cup Asked(opt, lst, c), !.pay = IF Described(opt) THEN PayOf(opt) ELSE @])
    /\ UNCHANGED <<conf, mem>>
\* a run that cannot be done: the inputs are as they were; unless it was to be
\* replaced, the output keeps everything it held (and may hold a part of what was asked)
Between(a, b, opt, lst, c) == /\ b.kind = a.kind /\ b.id = a.id /\ b.extra = a.extra /\ a.tgts \subseteq b.tgts
                              /\ b.tgts \subseteq a.tgts \cup Asked(opt, lst, c) /\ b.pay \in {a.pay} \cup (IF a.pay = 0 THEN {PayOf(opt)} ELSE {})
                              /\ b.info \in {a.info, 1}
Partly(f, d, opt, lst, out, replace, c) ==
    LET all == Copied(Copied(disk, opt, out), lst, out) IN
    IF f = out THEN \/ f \in DOMAIN disk /\ f \in DOMAIN d /\ Between(disk[f], d[f], opt, lst, c)
                    \/ (f \notin DOMAIN disk \/ (replace /\ ~IsInput(f, opt, lst))) /\ (f \in DOMAIN d => Between(Empty, d[f], opt, lst, c))
    ELSE IF f \in DOMAIN disk THEN f \in DOMAIN d /\ d[f] \in {disk[f], all[f]}
    ELSE f \in DOMAIN d => f \in DOMAIN all /\ d[f] = all[f]
PipelineFails(opt, lst, out, replace, c, d) ==
    /\ CanRun(opt, lst, out, replace) = FALSE
    /\ (\A f \in DOMAIN disk \cup DOMAIN d : Partly(f, d, opt, lst, out, replace, c)) = TRUE
    /\ disk' = d /\ UNCHANGED <<conf, mem>>

\* -- what has to hold ------------------------------------------------------------
Informed == \A f \in DOMAIN disk : disk[f].kind = "h5" => disk[f].info = 1
\* descriptions and lists are never changed by what reads them
Inputs == [][conf # <<>> => \A f \in DOMAIN disk : disk[f].kind # "h5" => f \in DOMAIN disk' /\ disk'[f].kind = disk[f].kind]_vars
\* only what observed it, with a payload that is in memory or in some file, is in a file
Known == \A f \in DOMAIN disk : \A x \in disk[f].tgts : x[2] \in DOMAIN conf.pays
=============================================================================
