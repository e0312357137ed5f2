------------------------------- MODULE ParMap -------------------------------
(* What a caller of the parallel map can observe: calls of the function     *)
(* starting and ending, then one answer.                                    *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES N,        \* number of items; never changes
          K,        \* number of workers requested; never changes
          st,       \* item -> "todo" | "open" | "done" | "failed"
          answer    \* "none" | "result" | "error"
ovars == <<st, answer>>
Items == 1..N
Open == {i \in Items : st[i] = "open"}

OInit == st = [i \in Items |-> "todo"] /\ answer = "none"
Call(i) == /\ answer # "result" /\ st[i] = "todo" /\ Cardinality(Open) < K
           /\ st' = [st EXCEPT ![i] = "open"] /\ UNCHANGED answer
Ret(i) == /\ answer # "result" /\ st[i] = "open" /\ st' = [st EXCEPT ![i] = "done"] /\ UNCHANGED answer
Raise(i) == /\ st[i] = "open" /\ st' = [st EXCEPT ![i] = "failed"] /\ UNCHANGED answer
Result == /\ answer = "none" /\ (\A i \in Items : st[i] = "done") /\ answer' = "result" /\ UNCHANGED st
Error == /\ answer = "none" /\ (\E i \in Items : st[i] = "failed") /\ answer' = "error" /\ UNCHANGED st
ONext == Result \/ Error \/ \E i \in Items : Call(i) \/ Ret(i) \/ Raise(i)
OSpec == OInit /\ [][ONext /\ UNCHANGED <<N, K>>]_<<N, K, ovars>>

\* the guarantees
AtMostK == Cardinality(Open) <= K
ResultComplete == answer = "result" => \A i \in Items : st[i] = "done"
ErrorsSurface == (\E i \in Items : st[i] = "failed") => answer # "result"
=============================================================================
