-------------------------------- MODULE Timer --------------------------------
(* A stopwatch. Time is counted in quarters of a second (the clock of the    *)
(* harness moves by quarters, which floating point represents exactly).      *)
EXTENDS Naturals, Sequences, TLC
VARIABLES now, born, last, shown      \* shown: the quarters the latest reading stands for
tvars == <<now, born, last, shown>>
TInit(t) == now = t /\ born = t /\ last = t /\ shown = 0
Advance(d) == now' = now + d /\ UNCHANGED <<born, last, shown>>
\* the time since the previous reading (or the creation); every reading begins a new lap
Lap == shown' = now - last /\ last' = now /\ UNCHANGED <<now, born>>
Total == shown' = now - born /\ last' = now /\ UNCHANGED <<now, born>>
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
\* h:mm:ss, started seconds do not count
Clock(q) == LET s == q \div 4 IN ToString(s \div 3600) \o ":" \o Two((s \div 60) % 60) \o ":" \o Two(s % 60)
=============================================================================
