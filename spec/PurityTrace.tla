---------------------------- MODULE PurityTrace ----------------------------
(* Histories of calls on shared tokenizers and sentencizers.  The            *)
(* specification is a function that nothing can change: the first answer for *)
(* a text (from a process that never did anything else) is every answer, and *)
(* the sentences of several lines are those of each line.                    *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, i, memo, verdict
vars == <<cid, i, memo, verdict>>
C == Cases[cid]
Kind(c) == IF "exc" \in DOMAIN c THEN "exc" ELSE IF "made" \in DOMAIN c THEN "custom" ELSE "history"
Init == cid \in 1..Len(Cases) /\ i = 1 /\ memo = <<>> /\ verdict = ""
Key(e) == <<e.op, e.text>>
E == C.events[i]
Running == verdict = "" /\ Kind(C) = "history" /\ i <= Len(C.events)
Call == /\ Running /\ E.op # "lines" /\ UNCHANGED cid
        /\ i' = i + 1
        /\ IF Key(E) \in DOMAIN memo
           THEN memo' = memo /\ verdict' = IF memo[Key(E)] = E.res THEN "" ELSE "impure"
           ELSE memo' = [k \in DOMAIN memo \cup {Key(E)} |-> IF k = Key(E) THEN E.res ELSE memo[k]] /\ verdict' = ""
Lines == /\ Running /\ E.op = "lines" /\ UNCHANGED <<cid, memo>> /\ i' = i + 1
         /\ verdict' = IF E.res = FlattenSeq([j \in DOMAIN E.parts |-> memo[<<"sen", E.parts[j]>>]]) THEN "" ELSE "lines"
Custom == /\ Kind(C) = "custom" /\ verdict = "" /\ UNCHANGED <<cid, i, memo>>
          /\ verdict' = IF C.used = <<C.want>> /\ \A k \in DOMAIN C.tokens : C.tokens[k] \in Range(C.made) THEN "OK" ELSE "custom"
Raised == Kind(C) = "exc" /\ verdict = "" /\ verdict' = "exc" /\ UNCHANGED <<cid, i, memo>>
Done == Kind(C) = "history" /\ verdict = "" /\ i > Len(C.events) /\ verdict' = "OK" /\ UNCHANGED <<cid, i, memo>>
Next == /\ Call \/ Lines \/ Custom \/ Raised \/ Done
        /\ (verdict' # "" ) => PrintT("CASE " \o ToString(cid) \o (IF verdict' = "OK" THEN " OK" ELSE " FAIL " \o verdict'))
        /\ (verdict' \notin {"", "OK"} /\ Kind(C) = "history") => PrintT(<<"EXPECTED", cid, [at |-> i]>>)
Spec == Init /\ [][Next]_vars
=============================================================================
