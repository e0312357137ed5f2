----------------------------- MODULE TimerTrace -----------------------------
EXTENDS Timer, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, i, verdict
vars == <<now, born, last, shown, cid, i, verdict>>
C == Cases[cid]
Init == cid \in 1..Len(Cases) /\ TInit(C.start) /\ i = 1 /\ verdict = ""
E == C.ops[i]
Step == /\ verdict = "" /\ i <= Len(C.ops) /\ UNCHANGED cid /\ i' = i + 1
        /\ CASE E.op = "advance" -> Advance(E.d) /\ verdict' = ""
             [] E.op = "lap" -> Lap /\ verdict' = IF E.res = Clock(shown') THEN "" ELSE "lap"
             [] E.op = "total" -> Total /\ verdict' = IF E.res = Clock(shown') THEN "" ELSE "total"
             [] OTHER -> UNCHANGED tvars /\ verdict' = "exc"
Done == verdict = "" /\ i > Len(C.ops) /\ verdict' = "OK" /\ UNCHANGED <<now, born, last, shown, cid, i>>
Next == /\ Step \/ Done
        /\ (verdict' # "") => PrintT("CASE " \o ToString(cid) \o (IF verdict' = "OK" THEN " OK" ELSE " FAIL " \o verdict'))
        /\ (verdict' \notin {"", "OK"}) => PrintT(<<"EXPECTED", cid, [event |-> C.ops[i], shown |-> Clock(shown')]>>)
Spec == Init /\ [][Next]_vars
=============================================================================
