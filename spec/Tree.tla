-------------------------------- MODULE Tree --------------------------------
(* A labelled tree as the sequence of its arcs [l, p, c] in the order they  *)
(* were registered, plus its root.  Each child is registered once.          *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

ArcsFrom(arcs, x) == SelectSeq(arcs, LAMBDA a : a.p = x)
KidsVia(arcs, x, l) == LET k == SelectSeq(arcs, LAMBDA a : a.p = x /\ a.l = l) IN [i \in DOMAIN k |-> k[i].c]
IsChild(arcs, x) == \E k \in DOMAIN arcs : arcs[k].c = x
IsParent(arcs, x) == \E k \in DOMAIN arcs : arcs[k].p = x
ArcTo(arcs, x) == arcs[CHOOSE k \in DOMAIN arcs : arcs[k].c = x]

\* labels below a node, by first registration
RECURSIVE Dedup(_, _)
Dedup(s, seen) == IF s = <<>> THEN <<>>
                  ELSE IF Head(s) \in seen THEN Dedup(Tail(s), seen)
                  ELSE <<Head(s)>> \o Dedup(Tail(s), seen \cup {Head(s)})
LabelsBelow(arcs, x) == LET k == ArcsFrom(arcs, x) IN Dedup([i \in DOMAIN k |-> k[i].l], {})
RECURSIVE Grouped(_, _, _)
Grouped(arcs, x, ls) == IF ls = <<>> THEN <<>>
                        ELSE LET k == KidsVia(arcs, x, Head(ls))
                             IN  [i \in DOMAIN k |-> <<Head(ls), k[i]>>] \o Grouped(arcs, x, Tail(ls))
\* children as <<label, child>>, grouped by label
Kids(arcs, x) == Grouped(arcs, x, LabelsBelow(arcs, x))

RECURSIVE Descend(_, _, _), DescendAll(_, _, _)
DescendAll(arcs, ks, l) == IF ks = <<>> THEN <<>> ELSE <<Head(ks)>> \o Descend(arcs, Head(ks), l) \o DescendAll(arcs, Tail(ks), l)
Descend(arcs, x, l) == DescendAll(arcs, KidsVia(arcs, x, l), l)
RECURSIVE Climb(_, _, _)      \* furthest ancestor first
Climb(arcs, x, l) == IF IsChild(arcs, x) /\ ArcTo(arcs, x).l = l
                     THEN Climb(arcs, ArcTo(arcs, x).p, l) \o <<ArcTo(arcs, x).p>> ELSE <<>>
Siblings(arcs, x) == IF ~IsChild(arcs, x) THEN <<>> ELSE SelectSeq(Kids(arcs, ArcTo(arcs, x).p), LAMBDA k : k[2] # x)
NodeList(root, arcs) == <<root>> \o [i \in DOMAIN arcs |-> arcs[i].c]

\* well-formedness used by the parser's guarantees
SingleParent(arcs) == \A i, j \in DOMAIN arcs : arcs[i].c = arcs[j].c => i = j
RECURSIVE Above(_, _, _)
Above(arcs, x, fuel) == IF fuel = 0 \/ ~IsChild(arcs, x) THEN {} ELSE {ArcTo(arcs, x).p} \cup Above(arcs, ArcTo(arcs, x).p, fuel - 1)
Acyclic(arcs) == \A k \in DOMAIN arcs : arcs[k].c \notin Above(arcs, arcs[k].c, Len(arcs) + 1)
=============================================================================
