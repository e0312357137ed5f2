------------------------------- MODULE TimerMC -------------------------------
(* Every history of up to Depth steps: laps add up to the total, readings    *)
(* never go back, and what is shown determines the seconds.                  *)
EXTENDS Timer, Json, SequencesExt
CONSTANTS Steps, Depth
VARIABLES laps, hist
vars == <<now, born, last, shown, laps, hist>>
Init == TInit(0) /\ laps = 0 /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E d \in Steps : Advance(d) /\ laps' = laps /\ hist' = Append(hist, [op |-> "advance", d |-> d])
           \/ Lap /\ laps' = laps + (now - last) /\ hist' = Append(hist, [op |-> "lap", d |-> 0])
           \/ Total /\ laps' = laps + (now - last) /\ hist' = Append(hist, [op |-> "total", d |-> 0])
        /\ (Len(hist') = Depth) => PrintT("BEH " \o ToJson([ops |-> hist']))
Spec == Init /\ [][Next]_vars
LapsAddUp == laps = last - born
InOrder == born <= last /\ last <= now
Bounded == shown <= now - born
=============================================================================
