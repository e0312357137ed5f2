--------------------------- MODULE LabelledTrace ---------------------------
(* Labelled sentences of the real code: what they expose, the transitions    *)
(* derived from them, and the tree the real parser rebuilds with those.      *)
EXTENDS ArcEager, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, p, k, verdict, phase
vars == <<cid, p, k, verdict, phase>>
C == Cases[cid]
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o " " \o Join(Tail(s))
\* the first root counts
RootWord == (CHOOSE i \in DOMAIN C.deps : C.deps[i] = "ROOT" /\ \A j \in 1..(i - 1) : C.deps[j] # "ROOT") - 1
Arcs == TreeArcs(C.head, C.deps)
Span(c) == LET h == Head0(C.head, c) IN IF h < c THEN <<h, c>> ELSE <<c, h>>
Crossing(a, b) == IF Head0(C.head, a) = -1 \/ Head0(C.head, b) = -1 THEN FALSE
                  ELSE LET x == Span(a)
                           y == Span(b)
                       IN  \/ (x[1] < y[1] /\ y[1] < x[2] /\ x[2] < y[2])
                           \/ (y[1] < x[1] /\ x[1] < y[2] /\ y[2] < x[2])
At(ws, w) == SelectSeq(ws, LAMBDA x : x.i = w)     \* the warnings of a word, in order
Access == LET a == C.acc IN
  CASE a.tokens # C.tokens \/ a.iter # C.tokens \/ a.items # C.tokens \/ a.len # Len(C.tokens) \/ a.id # 11 -> "tokens"
    [] a.tags # C.tags -> "tags"
    [] a.deps # C.deps -> "deps"
    [] a.str # Join(C.tokens) -> "text"
    [] a.valid # Valid(C.deps) -> "valid"
    [] a.root # RootWord \/ ArcSet(a.arcs) # Arcs \/ Len(a.arcs) # Cardinality(Arcs) -> "tree"
    [] a.leaves # SelectSeq(Valid(C.deps), LAMBDA w : \A c \in DOMAIN C.head : C.head[c] # w) -> "leaf"
    [] \E i \in DOMAIN a.cross : a.cross[i].r # Crossing(a.cross[i].a, a.cross[i].b) -> "crossing"
    [] ~a.warned.before \/ a.warned.none # (a.warned.given = <<>>)
       \/ \E w \in 0..(Len(C.tokens) - 1) : At(a.warned.got, w) # At(a.warned.given, w)
       \/ Len(a.warned.keys) # Cardinality({a.warned.given[i].i : i \in DOMAIN a.warned.given}) -> "warnings"
    [] OTHER -> "ok"
Init == /\ cid \in 1..Len(Cases) /\ p = Start(Cases[cid].deps) /\ k = 1 /\ phase = "run"
        /\ verdict = IF "exc" \in DOMAIN Cases[cid] THEN "exc" ELSE "ok"
Step == /\ phase = "run" /\ verdict = "ok" /\ ~C.odd /\ k <= Len(C.ts)
        /\ LET e == C.ts[k] IN
           IF Complete(p) \/ Top(p) # e.i \/ Front0(p) # e.j
           THEN verdict' = "transition" /\ UNCHANGED <<p, k>>
           ELSE p' = Do(p, e.t, C.deps) /\ k' = k + 1 /\ UNCHANGED verdict
        /\ UNCHANGED <<cid, phase>>
Result == IF C.odd THEN Access ELSE IF ~Complete(p) THEN "incomplete"
          ELSE IF ArcSet(p.arcs) # Arcs THEN "transitions"
          ELSE IF ArcSet(C.rebuilt) # Arcs \/ Len(C.rebuilt) # Cardinality(Arcs) THEN "rebuilt"
          ELSE Access
Finish == /\ phase = "run" /\ (IF verdict # "ok" \/ C.odd THEN TRUE ELSE k > Len(C.ts)) /\ phase' = "done" /\ UNCHANGED <<cid, p, k>>
          /\ verdict' = IF verdict = "ok" THEN Result ELSE verdict
          /\ PrintT("CASE " \o ToString(cid) \o " " \o (IF verdict' = "ok" THEN "OK" ELSE "FAIL " \o verdict'))
          /\ (verdict' \notin {"ok", "exc"}) => PrintT(<<"EXPECTED", cid, [parse |-> p, oracle |-> OracleRun(Start(C.deps), C.head, C.deps, <<>>).ts]>>)
Spec == Init /\ [][Step \/ Finish]_vars
\* the labelled trees given are projective
Given == C.odd \/ (Dominated(C.head) /\ Acyclic(HeadArcs(C.head)))
=============================================================================
