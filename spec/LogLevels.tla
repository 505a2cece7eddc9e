------------------------------ MODULE LogLevels ------------------------------
(* What of the messages reaches the screen and the log files.

   level   messages of at least this level are shown
   off     the level to come back to while logging is disabled, 0 when it is not
   was     the level before a disabling that was ended by setting a level (0: none)
   files   the log files that were added

   A call of the code emits messages, each [lev: its level, n: how often,
   missing / shown / twice: how many distinct messages of this kind reached the
   place less often than emitted / at all / more often than emitted].            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES level, off, was, files
vars == <<level, off, was, files>>
Debug == 10
Info == 20
Warn == 30
Error == 40
Levels == {10, 20, 30, 40, 50}
Start == level = Info /\ off = 0 /\ was = 0 /\ files = {}
\* -- the user's calls ----------------------------------------------------------
Set(x) == level' = x /\ was' = (IF off # 0 THEN off ELSE 0) /\ off' = 0 /\ UNCHANGED files
Disable == off' = (IF off = 0 THEN level ELSE off) /\ level' = Error /\ was' = 0 /\ UNCHANGED files
\* enabling what is not disabled leaves the level, or brings it to the usual one
Enabled(x) == IF off # 0 THEN x = off ELSE x \in {level, Info} \/ (was # 0 /\ x = was)
Enable(x) == Enabled(x) = TRUE /\ level' = x /\ off' = 0 /\ was' = 0 /\ UNCHANGED files
AddFile(f) == files' = files \cup {f} /\ UNCHANGED <<level, off, was>>
Emit == UNCHANGED vars
\* observing targets leaves everything as the user had set it
Observe(debug) == UNCHANGED vars
\* a run in debug mode shows everything, also afterwards; it may add a log file
Pipeline(debug, f) == /\ level' = (IF debug THEN Debug ELSE level)
                      /\ (IF debug THEN off' = 0 /\ was' = (IF off # 0 THEN off ELSE 0) ELSE UNCHANGED <<off, was>>)
                      /\ files' = (IF f = 0 THEN files ELSE files \cup {f})
\* -- what is shown ----------------------------------------------------------------
\* at a level x
Shows(x, m) == m.twice = 0 /\ (IF m.lev >= x THEN m.missing = 0 ELSE m.shown = 0)
\* while a target is observed out of debug mode, what is no error may be hidden
\* (and errors are shown if the user's level leaves them out)
ShowsSome(x, m) == m.twice = 0 /\ (IF m.lev < x /\ m.lev < Error THEN m.shown = 0 ELSE (m.lev >= Error /\ m.lev >= x) => m.missing = 0)
Files(m) == m.twice = 0 /\ m.missing = 0
Seen(x) == {y \in Levels : y >= x}
\* -- what has to hold ---------------------------------------------------------------
Disabled == off # 0 => level = Error
=============================================================================
