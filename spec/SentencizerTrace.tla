------------------------- MODULE SentencizerTrace --------------------------
EXTENDS Sentencizer, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES id, ls, out, done
vars == <<id, ls, out, done>>

\* one action per line of the text
Init == id \in 1..Len(Cases) /\ ls = (IF "free" \in DOMAIN Cases[id] THEN <<>> ELSE Lines(Cases[id].text)) /\ out = <<>> /\ done = FALSE
Line == /\ ls # <<>>
        /\ out' = out \o LineSentences(Head(ls)) /\ ls' = Tail(ls) /\ UNCHANGED <<id, done>>

Say(clause) == PrintT("CASE " \o ToString(id) \o " " \o clause)
Verdict == LET c == Cases[id] IN
  IF "exc" \in DOMAIN c THEN Say("FAIL raised")
  ELSE IF ~SentConserved(c.text, c.sents) THEN Say("FAIL conserved")
  ELSE IF ~QuotesWhole(c.text, c.sents) THEN Say("FAIL quotes")
  ELSE IF ~PassagesWhole(c.text, c.sents) THEN Say("FAIL brackets")
  ELSE IF ~OnlyLast(c.sents, c.text) THEN Say("FAIL enders")
  ELSE IF c.sents # out /\ "free" \notin DOMAIN c THEN Say("FAIL boundaries") /\ PrintT(<<"EXPECTED", id, out>>)
  ELSE Say("OK")
Finish == /\ ls = <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED <<id, ls, out>> /\ Verdict
Next == Line \/ Finish
Spec == Init /\ [][Next]_vars
SpecOK == (ls = <<>>) => LET t == Cases[id].text IN
             \/ "free" \in DOMAIN Cases[id]
             \/ /\ SentConserved(t, out) /\ QuotesWhole(t, out) /\ PassagesWhole(t, out) /\ OnlyLast(out, t)
============================================================================
