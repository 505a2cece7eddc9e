------------------------------ MODULE NoiseMC ------------------------------
(* two small channels: estimates depend on a channel's own rows and settings only *)
EXTENDS Noise
CONSTANT Sigs, Maxes
VARIABLE first
Row(c, s, m) == [ch |-> c, win |-> 2, wl |-> 3, sig |-> <<1, s>>, max |-> <<1, m>>]
Ch(ft, freq, m, x) == [well |-> 60, f10 |-> 5, ft |-> ft, freq10 |-> freq, m |-> m, dark |-> 2, rn |-> 3, x10 |-> x, customs |-> <<>>]
Init == /\ \E s \in [1..3 -> Sigs], m \in [1..3 -> Maxes] :
             rows = <<Row(1, s[1], m[1]), Row(1, s[2], m[2]), Row(2, s[3], m[3])>>
        /\ parts = <<"instrument", "star">>
        /\ \E ft \in {0, 20}, freq \in {0, 2, 5}, x \in {-1, 4}, m \in {0, 2} :
             chans = <<Ch(ft, freq, m, x), [Ch(0, 5, 0, -1) EXCEPT !.customs = <<[name |-> "own", kind |-> "slope", p |-> 1]>>]>>
        /\ common \in {<<>>, <<[name |-> "gain", kind |-> "flat", p |-> 2]>>}
        /\ maxsum = <<>> /\ done = 0 /\ est = <<>> /\ first = <<>>
MEst(c) == EstimateIn(c) /\ UNCHANGED first
MSum == SumMax /\ UNCHANGED first
MAgain == /\ first = <<>> /\ Again /\ first' = est
Next == MSum \/ (\E c \in 1..2 : MEst(c)) \/ MAgain
Complete == done = Len(chans)
\* repeating changes nothing
Stable == Complete /\ first # <<>> => est = first
\* one frame per channel, that fills the brightest pixel to the fraction of its well
OneFrame == \A c \in 1..done : \A r \in RowsOf(c) :
    LET e == est[c][r] IN
    /\ (chans[c].ft > 0 => e.frame = <<chans[c].ft, 1>>)
    /\ (chans[c].ft = 0 => e.frame[1] * 10 * maxsum[r] <= chans[c].f10 * chans[c].well * e.frame[2])
    /\ (chans[c].ft = 0 => \E b \in RowsOf(c) : est[c][b].frame[1] * 10 * maxsum[b] = chans[c].f10 * chans[c].well * e.frame[2])
\* correlated double sampling is the limit: more reads, less read noise; shot gain between 1 and 1.2
Gains == \A c \in 1..done : \A r \in RowsOf(c) : LET n == est[c][r].n IN
    /\ n >= 2 /\ ShotGain(n) >= 1000000 /\ ShotGain(n) <= 1200000
    /\ ReadGain(n, 1) <= 2000000 /\ ReadGain(n, 2) <= ReadGain(n, 1) /\ ReadGain(n + 1, 1) <= ReadGain(n, 1)
\* excess noise and custom noises only add
Monotone == \A c \in 1..done : \A r \in RowsOf(c) : LET e == est[c][r] IN
    e.total = -1 \/ e.total >= e.dark + e.read + SumSeq(e.photon)
Undefined == \A c \in 1..done : \A r \in RowsOf(c) : (est[c][r].total = -1) = (rows[r].sig[2] = 0)
=============================================================================
