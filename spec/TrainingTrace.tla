--------------------------- MODULE TrainingTrace ---------------------------
(* Training data: a bag of samples.  A sample lays out the words, tags and   *)
(* dependencies of one sentence in 52 rows; a transition sample also selects *)
(* the two compared words and gives the expected transition.                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, phase, verdict
vars == <<cid, phase, verdict>>
Rows == 52
Lay(s, first, last, pad) == LET l == <<first>> \o s \o <<last>> IN [k \in 1..Rows |-> IF k <= Len(l) THEN l[k] ELSE pad]
Ids(s) == Lay(s, 0, 0, 0)
Text(s) == Lay(s, "ʃʃʃ", "ʄʄʄ", "")
None == <<>>
Base(s) == [chars |-> Text(s.tokens), words |-> Text(s.tokens), tags |-> Ids(s.tags), deps |-> None, m1 |-> None, m2 |-> None, answer |-> -1]
Of(kind, s) ==
  CASE kind = "tags" -> <<Base(s)>>
    [] kind = "deps" -> <<[Base(s) EXCEPT !.deps = Ids(s.deps)]>>
    [] kind = "trans" -> [k \in DOMAIN s.ts |-> [Base(s) EXCEPT !.deps = Ids(s.deps), !.m1 = <<s.ts[k].i + 1>>, !.m2 = <<s.ts[k].j + 1>>, !.answer = s.ts[k].t]]
RECURSIVE All(_, _, _)
All(kind, sents, n) == IF n = 0 THEN <<>> ELSE All(kind, sents, n - 1) \o Of(kind, sents[n])
Count(seq, x) == Cardinality({k \in DOMAIN seq : seq[k] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Count(a, a[k]) = Count(b, a[k])
Best(s) == CHOOSE x \in {s[k] : k \in DOMAIN s} : \A k \in DOMAIN s : s[k] <= x
Judge(c) == IF "exc" \in DOMAIN c THEN "exc"
            ELSE LET want == All(c.kind, c.sents, Len(c.sents)) IN
                 IF Len(c.samples) # Len(want) THEN "count"
                 ELSE IF ~SameBag(want, c.samples) THEN "samples"
                 ELSE IF ~c.fed THEN "fed"
                 \* what training reports: the best accuracy, in percent, on the samples held out if there are any
                 ELSE IF c.learnt.got # 100 * Best(IF c.learnt.split THEN c.learnt.val ELSE c.learnt.acc) THEN "accuracy" ELSE "ok"
Init == cid \in 1..Len(Cases) /\ phase = "run" /\ verdict = "?"
Finish == /\ phase = "run" /\ phase' = "done" /\ UNCHANGED cid /\ verdict' = Judge(Cases[cid])
          /\ PrintT("CASE " \o ToString(cid) \o " " \o (IF verdict' = "ok" THEN "OK" ELSE "FAIL " \o verdict'))
Spec == Init /\ [][Finish]_vars
=============================================================================
