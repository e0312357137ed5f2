---------------------------- MODULE VectorsTrace ----------------------------
EXTENDS Vectors, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, phase, verdict
vars == <<cid, phase, verdict>>
Set(s) == {s[k] : k \in DOMAIN s}
Judge(c) ==
  IF c.op = "vectors" /\ Len(c.tokens) > MaxSent
  THEN IF "exc" \in DOMAIN c /\ c.exc = "SentenceTooLongError" THEN "ok" ELSE "toolong"
  ELSE IF "exc" \in DOMAIN c THEN "exc"
  ELSE CASE c.op = "vectors" ->
              IF c.n # Len(c.tokens) + 2 THEN "length"
              ELSE IF c.cshape # <<Rows, Cols>> \/ c.wshape # <<Rows, 100>> \/ c.kinds # <<"i", "f">> THEN "shape"
              ELSE IF c.chars # Chars2(c.tokens, c.cmap, c.unk) THEN "chars"
              ELSE IF c.words # Words2(c.tokens, c.vocab) THEN "words" ELSE "ok"
         [] c.op = "masks" -> IF c.l1 = Rows /\ c.l2 = Rows /\ c.m1 = <<c.a>> /\ c.m2 = <<c.b>> THEN "ok" ELSE "masks"
         [] c.op = "charset" ->
              IF Cardinality(Set(c.known)) # Len(c.known) THEN "distinct"
              ELSE IF Cardinality(Set(c.unknown)) # 1 \/ Set(c.unknown) \cap Set(c.known) # {} THEN "unknown"
              ELSE IF \E x \in Set(c.known) \cup Set(c.unknown) : x < 0 \/ x >= c.size THEN "size" ELSE "ok"
         [] c.op = "wordset" ->
              IF \E k \in 1..c.n : c.got[k] # (IF k \in Set(c.glove) \cap Set(c.lm) THEN k ELSE 0) THEN "wordset"
              ELSE IF c.unk # 0 \/ c.size # Cardinality(Set(c.glove) \cap Set(c.lm)) + 1 THEN "wordset" ELSE "ok"
Init == cid \in 1..Len(Cases) /\ phase = "run" /\ verdict = "?"
Finish == /\ phase = "run" /\ phase' = "done" /\ UNCHANGED cid /\ verdict' = Judge(Cases[cid])
          /\ PrintT("CASE " \o ToString(cid) \o " " \o (IF verdict' = "ok" THEN "OK" ELSE "FAIL " \o verdict'))
Spec == Init /\ [][Finish]_vars
=============================================================================
