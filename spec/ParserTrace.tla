---------------------------- MODULE ParserTrace ----------------------------
(* What the real parser did for one sentence: the two words it compared at   *)
(* each step, the transition it was given, and the tree it built.            *)
EXTENDS ArcEager, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, p, k, verdict, phase
vars == <<cid, p, k, verdict, phase>>
C == Cases[cid]
Init == /\ cid \in 1..Len(Cases) /\ p = Start(Cases[cid].deps) /\ k = 1 /\ phase = "run"
        /\ verdict = IF "exc" \in DOMAIN Cases[cid] THEN "exc" ELSE "ok"
Step == /\ phase = "run" /\ verdict = "ok" /\ k <= Len(C.ts)
        /\ LET e == C.ts[k] IN
           IF Complete(p) \/ Top(p) # e.i \/ Front0(p) # e.j
           THEN verdict' = "step" /\ UNCHANGED <<p, k>>
           ELSE p' = Do(p, e.t, C.deps) /\ k' = k + 1 /\ UNCHANGED verdict
        /\ UNCHANGED <<cid, phase>>
Result == IF ~Complete(p) THEN "incomplete"
          ELSE IF Len(C.ts) > 2 * Len(C.deps) THEN "bound"
          ELSE IF C.tags # C.wtags THEN "tags"
          ELSE IF ArcSet(C.arcs) # ArcSet(p.arcs) \/ Len(C.arcs) # Len(p.arcs) THEN "arcs"
          ELSE IF ~WellFormed(C.arcs, C.deps) THEN "wellformed"
          ELSE IF C.root # (IF p.arcs = <<>> THEN -1 ELSE RootOf(p.arcs)) THEN "root" ELSE "ok"
Finish == /\ phase = "run" /\ (IF verdict # "ok" THEN TRUE ELSE k > Len(C.ts)) /\ phase' = "done" /\ UNCHANGED <<cid, p, k>>
          /\ verdict' = IF verdict = "ok" THEN Result ELSE verdict
          /\ PrintT("CASE " \o ToString(cid) \o " " \o (IF verdict' = "ok" THEN "OK" ELSE "FAIL " \o verdict'))
          /\ (verdict' \notin {"ok", "exc"}) => PrintT(<<"EXPECTED", cid, p>>)
Spec == Init /\ [][Step \/ Finish]_vars
\* the specification itself never leaves the guarantees
Good == WellFormed(p.arcs, C.deps)
=============================================================================
