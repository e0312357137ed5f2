-------------------------- MODULE TokenizerTrace ---------------------------
EXTENDS Tokenizer, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES id, pc, buf
vars == <<id, pc, buf>>

Init == id \in 1..Len(Cases) /\ pc = 1 /\ buf = [txt |-> Cases[id].text, kept |-> <<>>]

Advance == /\ pc <= Len(Stages) /\ Cases[id].text # <<>>
           /\ buf' = Step(Stages[pc], buf)
           /\ pc' = pc + 1 /\ UNCHANGED id

Expected == IF Cases[id].text = <<>> THEN << <<>> >> ELSE Split(buf.txt)

Say(clause) == PrintT("CASE " \o ToString(id) \o " " \o clause)

Finish == /\ pc \in {Len(Stages) + 1} \cup (IF Cases[id].text = <<>> THEN {1} ELSE {})
          /\ pc' = 99 /\ UNCHANGED <<id, buf>>
          /\ LET c == Cases[id] IN
             IF "exc" \in DOMAIN c THEN Say("FAIL raised")
             ELSE IF ~WellFormed(c.text, c.toks) THEN Say("FAIL wellformed")
             ELSE IF ~Conserved(c.text, c.toks) THEN Say("FAIL conserved")
             ELSE IF c.toks # Expected /\ "free" \notin DOMAIN c THEN Say("FAIL boundaries") /\ PrintT(<<"EXPECTED", id, Expected>>)
             ELSE Say("OK")
Next == Advance \/ Finish
Spec == Init /\ [][Next]_vars
SpecConserved == (pc = Len(Stages) + 1 /\ "free" \notin DOMAIN Cases[id]) => Conserved(Cases[id].text, Split(buf.txt))
============================================================================
