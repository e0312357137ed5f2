------------------------- MODULE NormalizationTrace -------------------------
(* Queries recorded from the real standardizer, lemmatizer and inflector,   *)
(* each in one of the recorded worlds (language model and tables).          *)
EXTENDS Standardizer, Lemmatizer, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Worlds == ndJsonDeserialize(IOEnv.WORLDS)
VARIABLES id, ans
vars == <<id, ans>>
W == Worlds[Cases[id].w]
Answer(c) == CASE c.op = "standard" -> Standard(W.lm, c.word)
               [] c.op = "lemma" -> Lemma(W, c.word, c.tag)
               [] c.op = "pp" -> PastParticiple(W, c.word)
Init == id \in 1..Len(Cases) /\ ans = <<>>
Say(clause) == PrintT("CASE " \o ToString(id) \o " " \o clause)
Next == /\ ans = <<>> /\ UNCHANGED id
        /\ ans' = <<Answer(Cases[id])>>
        /\ LET c == Cases[id] IN
           IF "exc" \in DOMAIN c THEN Say("FAIL raised")
           ELSE IF c.res # ans'[1] THEN Say("FAIL " \o c.op) /\ PrintT(<<"EXPECTED", id, ans'[1]>>)
           ELSE Say("OK")
Spec == Init /\ [][Next]_vars
\* properties of the specification itself
Kept == ans # <<>> => LET c == Cases[id] IN
  /\ c.op = "standard" /\ Known(W.lm, c.word, 5) => ans[1] = c.word
  /\ c.op = "lemma" => ans[1][2] \in {None, "THIRD_PERSON", "PAST", "PROGRESSIVE", "PLURAL", "COMPARATIVE", "SUPERLATIVE"}
  /\ c.op = "lemma" /\ c.tag \notin {"NOUN", "VERB", "ADJ", "ADV", "PROPN", "PRON", "NUM", "SYM"} => ans[1] = <<Lower(c.word), None>>
  /\ c.op = "pp" /\ c.word \notin DOMAIN W.irregular => Ends(ans[1], "ed")
=============================================================================
