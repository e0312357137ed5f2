--------------------------- MODULE PipelineTrace ---------------------------
(* Calls of the real pipeline.  refs: the tuples of each sentence alone      *)
(* (numbers: equal numbers, equal tuples), with and without noun chunks.     *)
EXTENDS Pipeline, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Limit == 50
VARIABLES cid, i, verdict
vars == <<cid, i, verdict>>
C == Cases[cid]
Sep == Range(C.sep)
TuplesOf(s) == LET R == {k \in DOMAIN C.refs : C.refs[k].s = s} IN
               IF R = {} THEN 0 ELSE LET r == C.refs[CHOOSE k \in R : TRUE] IN IF C.chunk THEN r.on ELSE r.off
Init == /\ cid \in 1..Len(Cases) /\ i = 1
        /\ verdict = IF "exc" \in DOMAIN Cases[cid] THEN "exc" ELSE IF Len(Cases[cid].res) # Len(Cases[cid].texts) THEN "count" ELSE ""
Want == Doc(C.texts[i], Sep, Limit, TuplesOf)
Step == /\ verdict = "" /\ i <= Len(C.texts) /\ UNCHANGED cid /\ i' = i + 1
        /\ verdict' = IF Len(C.res[i]) # Len(Want) THEN "sentences" ELSE IF C.res[i] # Want THEN "tuples" ELSE ""
        /\ (verdict' # "") => PrintT(<<"EXPECTED", cid, [text |-> i, doc |-> Want]>>)
Finish == /\ verdict \notin {"OK", "said"} /\ (IF verdict # "" THEN TRUE ELSE i > Len(C.texts)) /\ UNCHANGED <<cid, i>>
          /\ verdict' = "said"
          /\ PrintT("CASE " \o ToString(cid) \o (IF verdict = "" THEN " OK" ELSE " FAIL " \o verdict))
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
