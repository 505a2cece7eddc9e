------------------------------- MODULE Noise -------------------------------
(* Noise estimation of one observed target.

   parts    names of the contributors to the light: the instrument (or its
            elements), the foregrounds and, last, the star
   rows     one per bin: [ch, win (window pixels), wl, sig, max] with the counts/s
            of each part in the window and in the brightest pixel
   chans    [well, f10 (10 * fraction of the well), ft (forced frame time [s], 0 none),
             freq10 (10 * reads/s), m (grouping, 0: not given), dark, rn,
             x10 (10 * NoiseX, -1: not given), customs]
   common   custom noises of all channels: [name, kind, p]: p thousand ppm, or p
            thousand ppm per micron for a noise tabulated by wavelength
   maxsum   by row, once the maximum signal is summed
   done     channels estimated so far
   est      by row of the channels done: [sat, frame, n, var] ...
   times    how often the whole estimation ran

   Variances are in thousandths of counts^2 / s^2 * 3600 s: a one hour scale,
   gains in millionths.                                                        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES rows, parts, chans, common, maxsum, done, est
vars == <<rows, parts, chans, common, maxsum, done, est>>

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RowsOf(c) == {r \in 1..Len(rows) : rows[r].ch = c}

\* ---- frame time: <<num, den>> seconds
FrameOf(ch, brightest) == IF ch.ft > 0 THEN <<ch.ft, 1>> ELSE <<ch.f10 * ch.well, 10 * brightest>>
\* ---- reads in a frame, never fewer than two
ReadsIn(frame, freq10) == LET n == (frame[1] * freq10) \div (frame[2] * 10) IN IF n < 2 THEN 2 ELSE n
Grouping(ch) == IF ch.m = 0 THEN 1 ELSE ch.m
ShotGain(n) == 1200000 - (1200000 * (n - 1)) \div (n * (n + 1))
ReadGain(n, m) == (12000000 * (n - 1)) \div (n * (n + 1) * m)

Photon(n, s) == (ShotGain(n) * s) \div 1000
DarkVar(n, ch, win) == (ShotGain(n) * win * ch.dark) \div 1000
ReadVar(n, ch, win, frame) == (((ReadGain(n, Grouping(ch)) * ch.rn * ch.rn * win) \div 1000) * frame[2]) \div frame[1]
Level(cu, wl) == IF cu.kind = "flat" THEN cu.p ELSE cu.p * wl
Customs(c) == common \o chans[c].customs
\* squared total noise times the squared star signal
TotalVar(n, c, r, frame) ==
    LET ch == chans[c] star == rows[r].sig[Len(parts)]
        x == IF ch.x10 = -1 THEN 0 ELSE ch.x10
        cus == Customs(c)
        phot == SumSeq([k \in 1..Len(parts) |-> Photon(n, rows[r].sig[k])])
        own == SumSeq([k \in 1..Len(cus) |-> (36 * star * star * Level(cus[k], rows[r].wl) * Level(cus[k], rows[r].wl)) \div 10])
    IN IF star = 0 THEN -1
       ELSE DarkVar(n, ch, rows[r].win) + ReadVar(n, ch, rows[r].win, frame) + ((10 + x) * phot) \div 10 + own

Estimate(c, n) ==
    LET ch == chans[c]
        frame == FrameOf(ch, Max({maxsum[r] : r \in RowsOf(c)}))
    IN [r \in RowsOf(c) |->
          [sat |-> <<ch.well, maxsum[r]>>, frame |-> frame, n |-> n,
           photon |-> [k \in 1..Len(parts) |-> Photon(n, rows[r].sig[k])],
           dark |-> DarkVar(n, ch, rows[r].win), read |-> ReadVar(n, ch, rows[r].win, frame),
           total |-> TotalVar(n, c, r, frame),
           custom |-> [k \in 1..Len(Customs(c)) |-> Level(Customs(c)[k], rows[r].wl)]]]
ReadsOf(c) == ReadsIn(FrameOf(chans[c], Max({maxsum[r] : r \in RowsOf(c)})), chans[c].freq10)

\* ---- the estimation
SumMax == /\ maxsum = <<>> /\ maxsum' = [r \in 1..Len(rows) |-> SumSeq(rows[r].max)]
          /\ UNCHANGED <<rows, parts, chans, common, done, est>>
EstimateIn(c) == /\ maxsum # <<>> /\ c = done + 1 /\ c <= Len(chans)
                 /\ est' = Append(est, Estimate(c, ReadsOf(c))) /\ done' = c
                 /\ UNCHANGED <<rows, parts, chans, common, maxsum>>
\* repeating it starts over from the same light
Again == /\ done = Len(chans) /\ maxsum' = <<>> /\ done' = 0 /\ est' = <<>>
         /\ UNCHANGED <<rows, parts, chans, common>>
=============================================================================
