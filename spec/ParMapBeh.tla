----------------------------- MODULE ParMapBeh ------------------------------
(* All orders in which the calls can complete in the design, for replay.    *)
EXTENDS ParMapThreads, Json
VARIABLE order
BInit == Init /\ order = <<>>
BNext == \/ (Start \/ Join \/ \E t \in Threads : Begin(t) \/ End(t)) /\ UNCHANGED order
         \/ \E t \in Threads : (Finish(t) \/ Fail(t)) /\ order' = Append(order, pos[t])
         \/ Answer /\ UNCHANGED order /\ PrintT("BEH " \o ToJson([n |-> n, k |-> k, fail |-> fail, order |-> order]))
BSpec == BInit /\ [][BNext]_<<vars, order>>
=============================================================================
