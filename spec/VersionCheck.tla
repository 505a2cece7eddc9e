----------------------------- MODULE VersionCheck -----------------------------
(* What a user is told about newer versions, from the changelog that is online, which is
   read line by line.

   net     how the network behaves: [reach, answer]; answer: "log" when the changelog
           arrives, anything else when it does not
   lines   what is still to be read: <<[k, v]>>; k: "head" of the release v, "unreleased",
           "text" v, "empty"
   mine    the installed version
   force   whether an old version is an error
   phase   "start", "looking" for the newest release, "telling" its changes and those
           of earlier ones, and in the end "quiet", "told" or "refused"
   newest, told   the newest release and the lines told                              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES net, lines, mine, force, phase, newest, told
vars == <<net, lines, mine, force, phase, newest, told>>
Ends == {"quiet", "told", "refused"}
Init == net = [reach |-> 0, answer |-> "none"] /\ lines = <<>> /\ mine = "" /\ force = 0 /\ phase = "quiet" /\ newest = "" /\ told = <<>>
Check(nt, ls, m, f) == phase \in Ends /\ net' = nt /\ lines' = ls /\ mine' = m /\ force' = f /\ phase' = "start" /\ newest' = "" /\ told' = <<>>
\* trouble with the network is no trouble
Ask == phase = "start" /\ phase' = (IF net.reach = 1 /\ net.answer = "log" THEN "looking" ELSE "quiet") /\ UNCHANGED <<net, lines, mine, force, newest, told>>
Next_ == lines' = Tail(lines)
Pass == /\ phase = "looking" /\ lines # <<>> /\ Head(lines).k # "head" /\ Next_ /\ UNCHANGED <<net, mine, force, phase, newest, told>>
Meet == /\ phase = "looking" /\ lines # <<>> /\ Head(lines).k = "head" /\ Next_
        /\ IF Head(lines).v = mine THEN phase' = "quiet" /\ UNCHANGED <<newest, told>>
           ELSE phase' = "telling" /\ newest' = Head(lines).v /\ told' = <<Head(lines)>>
        /\ UNCHANGED <<net, mine, force>>
NoRelease == phase = "looking" /\ lines = <<>> /\ phase' = "quiet" /\ UNCHANGED <<net, lines, mine, force, newest, told>>
Mine == Head(lines).k = "head" /\ Head(lines).v = mine
Tell == /\ phase = "telling" /\ lines # <<>> /\ ~Mine /\ Next_ /\ told' = (IF Head(lines).k = "empty" THEN told ELSE Append(told, Head(lines)))
        /\ UNCHANGED <<net, mine, force, phase, newest>>
Over == /\ phase = "telling" /\ (lines = <<>> \/ (lines # <<>> /\ Mine)) = TRUE /\ phase' = (IF force = 1 THEN "refused" ELSE "told")
        /\ UNCHANGED <<net, lines, mine, force, newest, told>>
Step == Ask \/ Pass \/ Meet \/ NoRelease \/ Tell \/ Over
-----------------------------------------------------------------------------
\* never bothered about what is installed, nor about what cannot be read
Polite == phase \in {"told", "refused"} => net.reach = 1 /\ net.answer = "log" /\ newest # mine /\ newest # ""
\* what is told is a piece of the changelog that starts with the newest release and has none of what is installed
Piece == told # <<>> => told[1].k = "head" /\ \A i \in 1..Len(told) : ~(told[i].k = "head" /\ told[i].v = mine)
Heard == phase = "refused" => force = 1
=============================================================================
