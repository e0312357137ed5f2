---------------------------- MODULE ParMapTrace -----------------------------
(* Histories recorded around the real parallel map: every event must be a   *)
(* step of ParMap; the result must list f(item) in the order of the items.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES id, pos, st, answer, verdict
vars == <<id, pos, st, answer, verdict>>
C == Cases[id]
Obs == INSTANCE ParMap WITH N <- C.n, K <- C.k
Init == /\ id \in 1..Len(Cases) /\ pos = 1 /\ answer = "none" /\ verdict = "run"
        /\ st = [i \in 1..(IF Cases[id].op = "map" THEN Cases[id].n ELSE 0) |-> "todo"]
Say(clause) == PrintT("CASE " \o ToString(id) \o " " \o clause)
E == C.events[pos]
Enabled == CASE E.e = "call" -> E.i \in 1..C.n /\ answer # "result" /\ st[E.i] = "todo" /\ Cardinality(Obs!Open) < C.k
             [] E.e = "ret" -> answer # "result" /\ st[E.i] = "open"
             [] E.e = "raise" -> st[E.i] = "open"
             [] E.e = "result" -> answer = "none" /\ \A i \in 1..C.n : st[i] = "done"
             [] E.e = "error" -> answer = "none" /\ \E i \in 1..C.n : st[i] = "failed"
Why == CASE E.e = "call" -> IF E.i \notin 1..C.n \/ st[E.i] # "todo" THEN "exactly-once" ELSE "concurrency"
         [] E.e = "result" -> IF \E i \in 1..C.n : st[i] = "failed" THEN "failure-lost" ELSE "incomplete"
         [] OTHER -> "protocol"
Step == /\ C.op = "map" /\ verdict = "run" /\ pos <= Len(C.events) /\ Enabled
        /\ CASE E.e = "call" -> Obs!Call(E.i)
             [] E.e = "ret" -> Obs!Ret(E.i)
             [] E.e = "raise" -> Obs!Raise(E.i)
             [] E.e = "result" -> Obs!Result
             [] E.e = "error" -> Obs!Error
        /\ pos' = pos + 1 /\ UNCHANGED <<id, verdict>>
Reject == /\ C.op = "map" /\ verdict = "run" /\ pos <= Len(C.events) /\ ~Enabled
          /\ verdict' = "bad" /\ Say("FAIL " \o Why) /\ UNCHANGED <<id, pos, st, answer>>
Done == /\ C.op = "map" /\ verdict = "run" /\ pos > Len(C.events)
        /\ verdict' = "end" /\ UNCHANGED <<id, pos, st, answer>>
        /\ IF answer = "none" THEN Say("FAIL no-answer")
           ELSE IF answer = "result" /\ C.res # C.expected THEN Say("FAIL order") /\ PrintT(<<"EXPECTED", id, C.expected>>)
           ELSE IF ~C.same THEN Say("FAIL input-changed")
           ELSE Say("OK")
-----------------------------------------------------------------------------
\* division of a list of n items (numbered 1..n) into parts / batches
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
IsPartition == Concat(C.parts) = [i \in 1..C.n |-> i] /\ \A p \in DOMAIN C.parts : C.parts[p] # <<>>
Divide == IF ~IsPartition THEN "FAIL partition"
          ELSE IF Len(C.parts) # (IF C.n < C.k THEN C.n ELSE C.k) THEN "FAIL parts"
          ELSE IF \E p, q \in DOMAIN C.parts : Len(C.parts[p]) > Len(C.parts[q]) + 1 THEN "FAIL balance"
          ELSE "OK"
Batch == IF ~IsPartition THEN "FAIL batch-partition"
         ELSE IF \E p \in DOMAIN C.parts : Len(C.parts[p]) > C.k \/ (p < Len(C.parts) /\ Len(C.parts[p]) # C.k) THEN "FAIL batch-size"
         ELSE "OK"
Cut == /\ C.op # "map" /\ verdict = "run" /\ verdict' = "end" /\ UNCHANGED <<id, pos, st, answer>>
       /\ Say(IF "exc" \in DOMAIN C THEN "FAIL raised" ELSE IF C.op = "divide" THEN Divide ELSE Batch)
Next == Step \/ Reject \/ Done \/ Cut
Spec == Init /\ [][Next]_vars
Safe == C.op = "map" => Obs!AtMostK /\ Obs!ResultComplete /\ Obs!ErrorsSurface
=============================================================================
