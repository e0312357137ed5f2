------------------------------ MODULE ArcEager ------------------------------
(* The transition system that builds a dependency tree.  Words are numbered *)
(* from 0; words labelled NODEP stay outside.  A parse state is a record    *)
(* [stack, buffer, arcs]; an arc is [l, p, c] (label, parent, child).       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Tree

Valid(deps) == SelectSeq([i \in 1..Len(deps) |-> i - 1], LAMBDA i : deps[i + 1] # "NODEP")
Lab(deps, w) == IF deps[w + 1] = "ROOT" THEN "SPLIT" ELSE deps[w + 1]     \* a root never has a parent

Top(p) == p.stack[Len(p.stack)]
Front0(p) == p.buffer[1]
Shift(p) == [p EXCEPT !.stack = Append(@, p.buffer[1]), !.buffer = Tail(@)]
Pop(p) == [p EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
Reduce(p) == IF Len(p.stack) = 1 THEN Shift(Pop(p)) ELSE Pop(p)
Attached(p, w) == \E k \in DOMAIN p.arcs : p.arcs[k].c = w
Arc(p, deps, par, ch) == [p EXCEPT !.arcs = Append(@, [l |-> Lab(deps, ch), p |-> par, c |-> ch])]

Start(deps) == LET v == Valid(deps) IN
               IF v = <<>> THEN [stack |-> <<>>, buffer |-> <<>>, arcs |-> <<>>]
               ELSE [stack |-> <<v[1]>>, buffer |-> Tail(v), arcs |-> <<>>]
Complete(p) == p.buffer = <<>>

Trans == {"LEFT", "RIGHT", "REDUCE", "SHIFT"}
Do(p, t, deps) ==
  CASE t = "LEFT"   -> Reduce(IF Attached(p, Top(p)) THEN p ELSE Arc(p, deps, Front0(p), Top(p)))
    [] t = "RIGHT"  -> Shift(Arc(p, deps, Top(p), Front0(p)))
    [] t = "REDUCE" -> Reduce(p)
    [] t = "SHIFT"  -> Shift(p)

\* what is built: no tree when there is no arc; the root is the first word that has a child and no parent
Roots(arcs) == {arcs[k].p : k \in DOMAIN arcs} \ {arcs[k].c : k \in DOMAIN arcs}
RootOf(arcs) == CHOOSE r \in Roots(arcs) : \A s \in Roots(arcs) : r <= s

\* guarantees
Lo(a) == IF a.p < a.c THEN a.p ELSE a.c
Hi(a) == IF a.p < a.c THEN a.c ELSE a.p
Projective(arcs) == \A i, j \in DOMAIN arcs : ~(Lo(arcs[i]) < Lo(arcs[j]) /\ Lo(arcs[j]) < Hi(arcs[i]) /\ Hi(arcs[i]) < Hi(arcs[j]))
WellFormed(arcs, deps) ==
  /\ SingleParent(arcs) /\ Acyclic(arcs) /\ Projective(arcs)
  /\ \A k \in DOMAIN arcs : arcs[k].p \in 0..(Len(deps) - 1) /\ arcs[k].c \in 0..(Len(deps) - 1)
                            /\ deps[arcs[k].p + 1] # "NODEP" /\ deps[arcs[k].c + 1] # "NODEP"
                            /\ arcs[k].p # arcs[k].c /\ arcs[k].l = Lab(deps, arcs[k].c)

-----------------------------------------------------------------------------
(* The transitions a labelled tree implies.  head: word -> parent, -1 for    *)
(* the root and for words outside.                                           *)
Head0(head, w) == head[w + 1]
Linked(head, w, before) == \/ Head0(head, w) # -1 /\ Head0(head, w) < before
                           \/ \E c \in 0..(Len(head) - 1) : Head0(head, c) = w /\ c < before
OracleT(p, head) == CASE Head0(head, Top(p)) = Front0(p) -> "LEFT"
                      [] Head0(head, Top(p)) # Front0(p) /\ Head0(head, Front0(p)) = Top(p) -> "RIGHT"
                      [] Head0(head, Top(p)) # Front0(p) /\ Head0(head, Front0(p)) # Top(p) ->
                           IF Linked(head, Front0(p), Top(p)) THEN "REDUCE" ELSE "SHIFT"
RECURSIVE OracleRun(_, _, _, _)
OracleRun(p, head, deps, acc) ==
  IF Complete(p) THEN [p |-> p, ts |-> acc]
  ELSE LET t == OracleT(p, head) IN OracleRun(Do(p, t, deps), head, deps, Append(acc, [i |-> Top(p), j |-> Front0(p), t |-> t]))

HeadArcs(h) == LET cs == SelectSeq([i \in 1..Len(h) |-> i - 1], LAMBDA c : h[c + 1] # -1)
               IN  [k \in DOMAIN cs |-> [l |-> "X", p |-> h[cs[k] + 1], c |-> cs[k]]]
\* projective tree: whatever stands between a word and its parent descends from that parent
RECURSIVE Under(_, _, _)
Under(h, w, a) == w = a \/ (h[w + 1] # -1 /\ Under(h, h[w + 1], a))
Dominated(h) == \A c \in 0..(Len(h) - 1) : h[c + 1] # -1 =>
                  \A w \in 0..(Len(h) - 1) : (((c < w /\ w < h[c + 1]) \/ (h[c + 1] < w /\ w < c))
                                              /\ (h[w + 1] # -1 \/ \E d \in DOMAIN h : h[d] = w)) => Under(h, w, h[c + 1])

ArcSet(arcs) == {arcs[k] : k \in DOMAIN arcs}
TreeArcs(head, deps) == {[l |-> deps[c + 1], p |-> Head0(head, c), c |-> c] : c \in {c \in 0..(Len(head) - 1) : Head0(head, c) # -1}}

\* the run chosen by a predictor: table[i + 1][j + 1] is its answer when comparing words i and j
RECURSIVE RunBy(_, _, _)
RunBy(p, deps, table) == IF Complete(p) THEN p
                         ELSE RunBy(Do(p, table[Top(p) + 1][Front0(p) + 1], deps), deps, table)
=============================================================================
