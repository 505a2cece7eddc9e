------------------------------- MODULE Command -------------------------------
(* The command exorad: words are read one after another into settings, then the command
   is refused, fails, or observes the targets and leaves files behind.

   words   what is still to be read: <<[opt, form, val]>>; opt: a letter of an option,
           "help", or "bad" for what no option understands; val: a path <<dir, name>>,
           a number <<text>>, or <<>>
   set     the settings read so far
   mode    "idle", "reading", "ready" or how the last command ended: "ok", "failed",
           "refused", "help"
   disk    a function from paths <<dir, name>> to what is in the files
             [kind |-> "payload", of |-> p]      description of instrument p ("built": built already)
             [kind |-> "list", of |-> l]         targets of list l
             [kind |-> "result", of |-> p, ...]  an output file: p the instrument in it
                     ("" when it was not written), on: the instrument observed with,
                     targets: the observed, full: whether contributions are told apart
             [kind |-> "plot", of |-> name]      a picture of a target or of the efficiency
             [kind |-> "log", n]                 what n commands had to say
   Lists(l) gives the names of the targets of a list.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Lists(_)
VARIABLES words, set, mode, disk
vars == <<words, set, mode, disk>>
None == <<>>
Default == [p |-> None, t |-> None, o |-> None, c |-> FALSE, n |-> 1, d |-> FALSE, l |-> FALSE, P |-> FALSE]
File(k, o, on, ts, f, n) == [kind |-> k, of |-> o, on |-> on, targets |-> ts, full |-> f, n |-> n]
Plain(k, o) == File(k, o, "", {}, FALSE, 0)
Log_ == <<".", "exorad.log">>
Number(v) == CASE v = <<"1">> -> 1 [] v = <<"2">> -> 2 [] v = <<"3">> -> 3 [] v = <<"8">> -> 8 [] OTHER -> 0

Init == words = <<>> /\ set = Default /\ mode = "idle" /\ disk = [f \in {} |-> 0]
Start(ws) == mode \notin {"reading", "ready"} /\ words' = ws /\ set' = Default /\ mode' = "reading" /\ UNCHANGED disk
Over(m) == mode' = m /\ words' = <<>> /\ UNCHANGED <<set, disk>>
\* one word; the last of several of the same option counts
Read == /\ mode = "reading" /\ words # <<>>
        /\ LET w == Head(words) IN
           CASE w.opt = "help" -> Over("help")
             [] w.opt = "bad" -> Over("refused")
             [] w.opt = "n" /\ Number(w.val) = 0 -> Over("refused")
             [] w.opt = "n" -> set' = [set EXCEPT !.n = Number(w.val)] /\ words' = Tail(words) /\ UNCHANGED <<mode, disk>>
             [] w.opt \in {"p", "t", "o"} -> set' = [set EXCEPT ![w.opt] = w.val] /\ words' = Tail(words) /\ UNCHANGED <<mode, disk>>
             [] OTHER -> set' = [set EXCEPT ![w.opt] = TRUE] /\ words' = Tail(words) /\ UNCHANGED <<mode, disk>>
\* payload and targets are asked for
Settle == /\ mode = "reading" /\ words = <<>> /\ UNCHANGED <<words, set, disk>>
          /\ mode' = IF set.p = None \/ set.t = None THEN "refused" ELSE "ready"
There(f) == f \in DOMAIN disk
\* inputs are there, and none of them is to be replaced by the output
Sound == There(set.p) /\ There(set.t) /\ set.o \notin {set.p, set.t}
Instrument == disk[set.p].of
Observed == Lists(disk[set.t].of)
WithLog(dk, k) == IF set.l THEN [f \in DOMAIN dk \cup {Log_} |-> IF f = Log_ THEN File("log", "", "", {}, FALSE, (IF Log_ \in DOMAIN dk THEN dk[Log_].n ELSE 0) + k) ELSE dk[f]] ELSE dk
Put(dk, f, x) == [g \in DOMAIN dk \cup {f} |-> IF g = f THEN x ELSE dk[g]]
\* inputs are kept beside the output, unless the output bears their name
Beside(dk, f) == LET g == <<set.o[1], f[2]>> IN IF g = set.o THEN dk ELSE Put(dk, g, disk[f])
Pictures(dk) == IF set.P THEN [g \in DOMAIN dk \cup {<<set.o[1], s \o ".png">> : s \in Observed \cup {"efficiency"}} |->
                               IF \E s \in Observed \cup {"efficiency"} : g = <<set.o[1], s \o ".png">>
                               THEN Plain("plot", CHOOSE s \in Observed \cup {"efficiency"} : g = <<set.o[1], s \o ".png">>) ELSE dk[g]] ELSE dk
Result == File("result", IF disk[set.p].kind = "payload" THEN Instrument ELSE "", Instrument, Observed, set.c, 0)
After == IF set.o = None THEN disk ELSE Pictures(Put(Beside(Beside(disk, set.p), set.t), set.o, Result))
Run == /\ mode = "ready" /\ Sound /\ mode' = "ok" /\ disk' = WithLog(After, 1) /\ UNCHANGED <<words, set>>
\* nothing is lost by a command that cannot work; it may have something to say
Fail_(k) == /\ mode = "ready" /\ ~Sound /\ mode' = "failed" /\ disk' = WithLog(disk, k) /\ UNCHANGED <<words, set>>
-----------------------------------------------------------------------------
Said(d) == IF Log_ \in DOMAIN d THEN d[Log_].n ELSE 0
\* results hold what their instrument is, and only there where they were asked for
Honest == \A f \in DOMAIN disk : disk[f].kind = "result" => disk[f].of \in {"", disk[f].on}
\* no command loses files of others: what it writes is its output, copies, pictures and its log
Others == [][\A f \in DOMAIN disk : f \in DOMAIN disk' /\ (disk'[f] # disk[f] => f = Log_ \/ (set.o # None /\ f[1] = set.o[1]))]_vars
\* refused and failing commands only ever speak
Harmless == [][mode' \in {"refused", "failed", "help"} => \A f \in DOMAIN disk \cup DOMAIN disk' : f = Log_ \/ (f \in DOMAIN disk /\ f \in DOMAIN disk' /\ disk'[f] = disk[f])]_vars
\* inputs stay
Inputs == [][(mode = "ready" /\ mode' = "ok") => disk'[set.p] = disk[set.p] /\ disk'[set.t] = disk[set.t]]_vars
=============================================================================
