------------------------------ MODULE OracleMC ------------------------------
(* Every projective tree of up to MaxW words, with words left out anywhere:  *)
(* the transitions it implies rebuild exactly that tree.                     *)
EXTENDS ArcEager, TLC, Json
CONSTANTS MaxW, Emit
VARIABLES deps, head, p, ts
vars == <<deps, head, p, ts>>
N == Len(head)
\* trees over a set of words: one root, the others have a parent in the set, no cycle, no crossing
Heads(n) == {h \in [1..n -> -2..(n - 1)] :        \* -2: left out, -1: root
               /\ Cardinality({i \in 1..n : h[i] = -1}) = 1
               /\ \A i \in 1..n : h[i] >= 0 => (h[i] # i - 1 /\ h[h[i] + 1] # -2)
               /\ LET g == [i \in 1..n |-> IF h[i] = -2 THEN -1 ELSE h[i]] IN Acyclic(HeadArcs(g)) /\ Projective(HeadArcs(g)) /\ Dominated(g)}
Init == \E n \in 1..MaxW : \E h \in Heads(n) :
          /\ deps = [i \in 1..n |-> IF h[i] = -2 THEN "NODEP" ELSE IF h[i] = -1 THEN "ROOT" ELSE <<"SUBJ", "OBJ", "CPL">>[(i % 3) + 1]]
          /\ head = [i \in 1..n |-> IF h[i] = -2 THEN -1 ELSE h[i]]
          /\ p = Start([i \in 1..n |-> IF h[i] = -2 THEN "NODEP" ELSE IF h[i] = -1 THEN "ROOT" ELSE <<"SUBJ", "OBJ", "CPL">>[(i % 3) + 1]])
          /\ ts = <<>>
Next == /\ ~Complete(p) /\ UNCHANGED <<deps, head>>
        /\ LET t == OracleT(p, head) IN p' = Do(p, t, deps) /\ ts' = Append(ts, [i |-> Top(p), j |-> Front0(p), t |-> t])
Done == /\ Complete(p) /\ Emit /\ UNCHANGED vars /\ PrintT("BEH " \o ToJson([deps |-> deps, head |-> head, ts |-> ts]))
Spec == Init /\ [][Next \/ Done]_vars
Rebuilds == Complete(p) => ArcSet(p.arcs) = TreeArcs(head, deps)
=============================================================================
