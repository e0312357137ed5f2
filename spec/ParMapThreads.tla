--------------------------- MODULE ParMapThreads ----------------------------
(* The design: the list is cut into contiguous slices, one thread per       *)
(* slice; threads are started in order, joined in order, outputs are        *)
(* concatenated; a thread stops at its first failure, which is re-raised     *)
(* once all threads have ended.  Checked to refine ParMap for every          *)
(* interleaving and every set of failing items.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxN, MaxK
VARIABLES n, k, fail,      \* the call: items, workers, items whose function fails
          pcs,             \* thread -> "new" | "ready" | "busy" | "end"
          pos,             \* thread -> next item of its slice
          err,             \* thread -> failed?
          outs,            \* thread -> results so far (item numbers)
          started, joined, res, st, answer
vars == <<n, k, fail, pcs, pos, err, outs, started, joined, res, st, answer>>

\* slices as divide_list: T = min(n, k) slices, slice t holds floor((t-1)n/T)+1 .. floor(tn/T)
T == IF n < k THEN n ELSE k
Lo(t) == ((t - 1) * n) \div T + 1
Hi(t) == (t * n) \div T
Threads == 1..T

Init == /\ n \in 0..MaxN /\ k \in 1..MaxK /\ fail \in SUBSET (1..MaxN) /\ fail \subseteq 1..n
        /\ pcs = [t \in 1..(IF n < k THEN n ELSE k) |-> "new"]
        /\ pos = [t \in 1..(IF n < k THEN n ELSE k) |-> ((t - 1) * n) \div (IF n < k THEN n ELSE k) + 1]
        /\ err = [t \in 1..(IF n < k THEN n ELSE k) |-> FALSE]
        /\ outs = [t \in 1..(IF n < k THEN n ELSE k) |-> <<>>]
        /\ started = 0 /\ joined = 0 /\ res = <<>>
        /\ st = [i \in 1..n |-> "todo"] /\ answer = "none"
const == <<n, k, fail>>

Start == /\ started < T /\ started' = started + 1 /\ pcs' = [pcs EXCEPT ![started + 1] = "ready"]
         /\ UNCHANGED <<const, pos, err, outs, joined, res, st, answer>>
Begin(t) == /\ pcs[t] = "ready" /\ pos[t] <= Hi(t)
            /\ pcs' = [pcs EXCEPT ![t] = "busy"] /\ st' = [st EXCEPT ![pos[t]] = "open"]
            /\ UNCHANGED <<const, pos, err, outs, started, joined, res, answer>>
Finish(t) == /\ pcs[t] = "busy" /\ pos[t] \notin fail
             /\ pcs' = [pcs EXCEPT ![t] = "ready"] /\ pos' = [pos EXCEPT ![t] = @ + 1]
             /\ outs' = [outs EXCEPT ![t] = Append(@, pos[t])] /\ st' = [st EXCEPT ![pos[t]] = "done"]
             /\ UNCHANGED <<const, err, started, joined, res, answer>>
Fail(t) == /\ pcs[t] = "busy" /\ pos[t] \in fail
           /\ pcs' = [pcs EXCEPT ![t] = "end"] /\ err' = [err EXCEPT ![t] = TRUE]
           /\ outs' = [outs EXCEPT ![t] = <<>>] /\ st' = [st EXCEPT ![pos[t]] = "failed"]
           /\ UNCHANGED <<const, pos, started, joined, res, answer>>
End(t) == /\ pcs[t] = "ready" /\ pos[t] > Hi(t) /\ pcs' = [pcs EXCEPT ![t] = "end"]
          /\ UNCHANGED <<const, pos, err, outs, started, joined, res, st, answer>>
Join == /\ started = T /\ joined < T /\ pcs[joined + 1] = "end"
        /\ joined' = joined + 1 /\ res' = res \o outs[joined + 1]
        /\ UNCHANGED <<const, pcs, pos, err, outs, started, st, answer>>
Answer == /\ started = T /\ joined = T /\ answer = "none"
          /\ answer' = IF \E t \in Threads : err[t] THEN "error" ELSE "result"
          /\ UNCHANGED <<const, pcs, pos, err, outs, started, joined, res, st>>
Next == Start \/ Join \/ Answer \/ \E t \in Threads : Begin(t) \/ Finish(t) \/ Fail(t) \/ End(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every answer is right, in the order of the items, and there always is one
Right == answer = "result" => res = [i \in 1..n |-> i]
Surfaces == answer # "none" => ((answer = "error") <=> (fail # {}))
Bounded == Cardinality({i \in 1..n : st[i] = "open"}) <= k
Partition == \A i \in 1..n : Cardinality({t \in Threads : Lo(t) <= i /\ i <= Hi(t)}) = 1
Balanced == \A t, u \in Threads : (Hi(t) - Lo(t)) - (Hi(u) - Lo(u)) <= 1
Ends == <>(answer # "none")
\* refinement of what callers may rely on
Abs == INSTANCE ParMap WITH N <- n, K <- k
Refines == [][Abs!ONext]_<<st, answer>>
=============================================================================
