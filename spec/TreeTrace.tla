----------------------------- MODULE TreeTrace ------------------------------
(* Histories of the real tree: registrations interleaved with queries.      *)
EXTENDS Tree, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES id, pos, arcs, bad
vars == <<id, pos, arcs, bad>>
C == Cases[id]
Q == C.ops[pos]
None == -1
SetOf(s) == {s[k] : k \in DOMAIN s}
Expected ==
  CASE Q.op = "parent" -> IF IsChild(arcs, Q.x) THEN <<ArcTo(arcs, Q.x).l, ArcTo(arcs, Q.x).p>> ELSE <<>>
    [] Q.op = "parent_via" -> IsChild(arcs, Q.x) /\ ArcTo(arcs, Q.x).l = Q.l
    [] Q.op = "parent_set" -> IsChild(arcs, Q.x) /\ ArcTo(arcs, Q.x).l \in SetOf(Q.ls)
    [] Q.op = "children" -> Kids(arcs, Q.x)
    [] Q.op = "children_via" -> KidsVia(arcs, Q.x, Q.l)
    [] Q.op = "child_via" -> LET k == KidsVia(arcs, Q.x, Q.l) IN IF k = <<>> THEN <<>> ELSE <<k[1]>>
    [] Q.op = "has_child" -> KidsVia(arcs, Q.x, Q.l) # <<>>
    [] Q.op = "has_child_set" -> \E l \in SetOf(Q.ls) : KidsVia(arcs, Q.x, l) # <<>>
    [] Q.op = "descendants" -> Descend(arcs, Q.x, Q.l)
    [] Q.op = "ancestors" -> Climb(arcs, Q.x, Q.l)
    [] Q.op = "siblings" -> Siblings(arcs, Q.x)
    [] Q.op = "has" -> Q.x = C.root \/ IsChild(arcs, Q.x) \/ IsParent(arcs, Q.x)
    [] Q.op = "nodes" -> NodeList(C.root, arcs)
    [] Q.op = "len" -> 1 + Len(arcs)
    [] Q.op = "iter" -> [i \in DOMAIN arcs |-> <<arcs[i].l, arcs[i].p, arcs[i].c>>]
    [] Q.op = "iter2" -> [i \in DOMAIN arcs |-> <<arcs[i].c, Len(arcs)>>]
    [] Q.op = "root" -> C.root
    [] Q.op = "self" -> TRUE      \* a node below itself is refused
Say(clause) == PrintT("CASE " \o ToString(id) \o " " \o clause)
Init == id \in 1..Len(Cases) /\ pos = 1 /\ arcs = <<>> /\ bad = FALSE
Register == /\ ~bad /\ pos <= Len(C.ops) /\ Q.op = "register" /\ "exc" \notin DOMAIN Q
            /\ arcs' = Append(arcs, [l |-> Q.l, p |-> Q.p, c |-> Q.c]) /\ pos' = pos + 1 /\ UNCHANGED <<id, bad>>
Query == /\ ~bad /\ pos <= Len(C.ops) /\ Q.op # "register" /\ "exc" \notin DOMAIN Q
         /\ LET e == Expected IN
            IF Q.r = e THEN pos' = pos + 1 /\ UNCHANGED <<id, arcs, bad>>
            ELSE bad' = TRUE /\ UNCHANGED <<id, pos, arcs>> /\ Say("FAIL " \o Q.op) /\ PrintT(<<"EXPECTED", id, pos, e>>)
Raised == /\ ~bad /\ pos <= Len(C.ops) /\ "exc" \in DOMAIN Q
          /\ bad' = TRUE /\ UNCHANGED <<id, pos, arcs>> /\ Say("FAIL raised")
Done == ~bad /\ pos = Len(C.ops) + 1 /\ pos' = pos + 1 /\ UNCHANGED <<id, arcs, bad>> /\ Say("OK")
Next == Register \/ Query \/ Raised \/ Done
Spec == Init /\ [][Next]_vars
Inv == SingleParent(arcs) /\ Acyclic(arcs)
=============================================================================
