----------------------------- MODULE NoiseTrace -----------------------------
(* Recorded noise estimations of real targets against Noise.
   Light    [parts, rows, chans, common]
   Summed   [maxsum]
   Est      [c, rows: sequence of recorded rows of the channel, order of the table]
   Columns  [custom, foreign]   custom noise columns by row
   Again    [same]              the estimation repeated
   Gain     [ms, dhz, m, shot, read]                                           *)
EXTENDS Noise, Conformance
VARIABLES l, bad, skip
aux == <<l, bad, skip>>
E == Log[l + 1]
At == l + 1
TInit == /\ rows = <<>> /\ parts = <<>> /\ chans = <<>> /\ common = <<>> /\ maxsum = <<>> /\ done = 0 /\ est = <<>>
         /\ l = 0 /\ bad = <<>> /\ skip = FALSE
Is(e) == l < Len(Log) /\ ~skip /\ E.ev = e /\ l' = At
Note(d) == bad' = bad \o d
Clear == /\ rows' = <<>> /\ parts' = <<>> /\ chans' = <<>> /\ common' = <<>> /\ maxsum' = <<>> /\ done' = 0 /\ est' = <<>>
TReset == /\ l < Len(Log) /\ E.ev = "Reset" /\ l' = At /\ skip' = FALSE /\ Clear /\ UNCHANGED bad
TCrash == /\ l < Len(Log) /\ E.ev = "Crash" /\ l' = At /\ skip' = TRUE /\ UNCHANGED vars
          /\ Note(Fail(At, "X.crash", "a result", E.error))
TLight == /\ Is("Light") /\ parts' = E.parts /\ rows' = E.rows /\ chans' = E.chans /\ common' = E.common
          /\ maxsum' = <<>> /\ done' = 0 /\ est' = <<>> /\ UNCHANGED <<bad, skip>>
TSummed == /\ Is("Summed") /\ SumMax /\ UNCHANGED skip
           /\ Note(Diff(At, "C09.maximum", maxsum', E.maxsum))
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, slack) == (a = -1 /\ b = -1) \/ (a # -1 /\ b # -1 /\ Abs(a - b) <= 6 + slack + a \div 10000)
Chk(clause, what, exp, got, slack) == IF Near(exp, got, slack) THEN <<>> ELSE Fail(At, clause, <<what, exp>>, <<what, got>>)
\* microseconds
Micro(q) == IF q[2] = 0 THEN -2 ELSE (q[1] \div q[2]) * 1000000 + ((q[1] % q[2]) * 1000000) \div q[2]
\* the number of reads is decided by rounding when a read ends just with the frame
ReadsAllowed(c) == LET f == FrameOf(chans[c], Max({maxsum[r] : r \in RowsOf(c)}))
                       n == ReadsOf(c)
                   IN IF n > 2 /\ (f[1] * chans[c].freq10) % (f[2] * 10) = 0 THEN {n, n - 1} ELSE {n}
ChkRow(e, g, r) ==
    Chk("C09.saturation", r, Micro(e.sat), g.sat, 200) \o Chk("C09.frame", r, Micro(e.frame), g.frame, 200)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
NoiseRow(e, g, r) ==
    LET s == 3 * (e.frame[2] \div e.frame[1] + 1) IN
    Cat([k \in 1..Len(parts) |-> Chk("C10.photon", <<r, parts[k]>>, e.photon[k], g.photon[k], 0)])
    \o Chk("C10.dark", r, e.dark, g.dark, 0) \o Chk("C10.read", r, e.read, g.read, s)
    \o Chk(IF Len(e.custom) = 0 THEN "C10.total" ELSE "C12.total", r, e.total, g.total, s)
\* which of two noises of the same name its column shows is not decided
Decided(want, got) == [k \in 1..Len(want) |-> IF k <= Len(got) /\ got[k] = -2 THEN -2 ELSE want[k]]
\* light of the row as if in another row would show in the photon noise
First(c) == CHOOSE r \in RowsOf(c) : \A q \in RowsOf(c) : r <= q
TEst == /\ Is("Est") /\ E.c = done + 1 /\ UNCHANGED skip
        /\ LET c == E.c
               rs == [i \in 1..Cardinality(RowsOf(c)) |-> First(c) + i - 1]
               tries == {Estimate(c, n) : n \in ReadsAllowed(c)}
               Bad(e) == Cat([i \in 1..Len(rs) |-> NoiseRow(e[rs[i]], E.rows[i], rs[i])])
               fine == {e \in tries : Bad(e) = <<>>}
               e == IF fine # {} THEN CHOOSE x \in fine : TRUE ELSE Estimate(c, ReadsOf(c))
           IN IF Len(E.rows) # Len(rs) THEN Note(Fail(At, "C09.rows", Len(rs), Len(E.rows))) /\ est' = Append(est, e) /\ done' = c
              ELSE /\ est' = Append(est, e) /\ done' = c
                   /\ Note(Cat([i \in 1..Len(rs) |-> ChkRow(e[rs[i]], E.rows[i], rs[i])])
                           \o Bad(e)
                           \o Cat([i \in 1..Len(rs) |-> Diff(At, "C12.column", Decided(e[rs[i]].custom, E.rows[i].custom), E.rows[i].custom)
                                                              \o Diff(At, "C12.foreign", <<>>, E.rows[i].foreign)])
                           \* a wrong gain shows in photon, dark and read noise alike
                           \o (IF Bad(e) # <<>> /\ \A i \in 1..Len(rs) : ~Near(e[rs[i]].dark, E.rows[i].dark, 0) \/ e[rs[i]].dark = 0
                               THEN Fail(At, "C11.gain", e[rs[1]].n, "other gains") ELSE <<>>))
        /\ UNCHANGED <<rows, parts, chans, common, maxsum>>
TAgain == /\ Is("Again") /\ Again /\ UNCHANGED skip
          /\ Note(IF E.same = 1 THEN <<>> ELSE Fail(At, "C15.noise", "the same table", E.differs))
GainReads == (E.ms * E.dhz) \div 10000
GainN == LET n == GainReads IN IF n < 2 THEN 2 ELSE n
GainNs == IF (E.ms * E.dhz) % 10000 = 0 /\ GainN > 2 THEN {GainN, GainN - 1} ELSE {GainN}
GainM == IF E.m = 0 THEN 1 ELSE E.m
TGain == /\ Is("Gain") /\ UNCHANGED <<vars, skip>>
         /\ Note(IF \E n \in GainNs : Abs(ShotGain(n) - E.shot) <= 2 /\ Abs(ReadGain(n, GainM) - E.read) <= 2 THEN <<>>
                 ELSE Fail(At, "C11.gain", <<GainN, ShotGain(GainN), ReadGain(GainN, GainM)>>, <<E.shot, E.read>>))
TSkip == l < Len(Log) /\ skip /\ E.ev \notin {"Reset", "Crash"} /\ l' = At /\ UNCHANGED <<vars, bad, skip>>
TStep == TReset \/ TCrash \/ TLight \/ TSummed \/ TEst \/ TAgain \/ TGain \/ TSkip
TOdd == /\ l < Len(Log) /\ ~skip /\ ~ ENABLED TStep /\ l' = At /\ skip' = TRUE
        /\ Note(Fail(At, "X.history", "a step of the specification", E)) /\ UNCHANGED vars
TNext == TStep \/ TOdd
Report == l = Len(Log) => Verdict(l, bad)
=============================================================================
