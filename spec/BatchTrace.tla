----------------------------- MODULE BatchTrace -----------------------------
(* Lists of sentences given to the real parser or tagger, with networks      *)
(* whose answers are the formulas below: the result of a sentence is a       *)
(* function of that sentence alone.                                          *)
EXTENDS ArcEager, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, n, verdict, phase
vars == <<cid, n, verdict, phase>>
C == Cases[cid]
DepNames == <<"NODEP", "ROOT", "AND", "ART", "AUX", "CALLEE", "CMARK", "CPL", "EXIST", "FLAT", "IMARK", "INTJ", "IOBJ", "IPROP", "MARK",
              "MODAL", "NEG", "OBJ", "OR", "ORPHAN", "PART", "PROP", "SPLIT", "SUBJ">>
TransNames == <<"LEFT", "RIGHT", "REDUCE", "SHIFT">>
Tags(s) == [k \in DOMAIN s |-> ((7 * s[k] + 3 * k + 5 * Len(s)) % 16) + 1]
Deps(s) == [k \in DOMAIN s |-> DepNames[((5 * s[k] + 2 * k + Len(s)) % 24) + 1]]
Table(s) == [i \in DOMAIN s |-> [j \in DOMAIN s |-> TransNames[((3 * s[i] + 5 * s[j] + 7 * Len(s) + (i - 1) * (j - 1)) % 4) + 1]]]
Parsed(s) == RunBy(Start(Deps(s)), Deps(s), Table(s)).arcs

Sentence(r, s) == IF r.tags # Tags(s) THEN "tags"
                  ELSE IF C.tagger THEN "ok"
                  ELSE LET arcs == Parsed(s) IN
                       IF ArcSet(r.arcs) # ArcSet(arcs) \/ Len(r.arcs) # Len(arcs) THEN "tree"
                       ELSE IF r.root # (IF arcs = <<>> THEN -1 ELSE RootOf(arcs)) THEN "root" ELSE "ok"
Init == /\ cid \in 1..Len(Cases) /\ n = 1 /\ phase = "run"
        /\ verdict = IF "exc" \in DOMAIN Cases[cid] THEN "exc"
                     ELSE IF Len(Cases[cid].res) # Len(Cases[cid].sents) THEN "count"
                     ELSE IF Cases[cid].biggest > Cases[cid].batch THEN "batch" ELSE "ok"
Step == /\ phase = "run" /\ verdict = "ok" /\ n <= Len(C.sents)
        /\ verdict' = Sentence(C.res[n], C.sents[n]) /\ n' = n + 1 /\ UNCHANGED <<cid, phase>>
Finish == /\ phase = "run" /\ (verdict # "ok" \/ n > Len(C.sents)) /\ phase' = "done" /\ UNCHANGED <<cid, n, verdict>>
          /\ PrintT("CASE " \o ToString(cid) \o " " \o (IF verdict = "ok" THEN "OK" ELSE "FAIL " \o verdict))
          /\ (verdict \in {"tags", "tree", "root"}) => PrintT(<<"EXPECTED", cid, [sentence |-> n - 1, tags |-> Tags(C.sents[n - 1]), deps |-> Deps(C.sents[n - 1]), arcs |-> Parsed(C.sents[n - 1])]>>)
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
