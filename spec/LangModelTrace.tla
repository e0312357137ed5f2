-------------------------- MODULE LangModelTrace ---------------------------
(* Each case is one life of a model: it is loaded, then answers a series   *)
(* of queries; every answer is judged.  Queries never change the model.    *)
EXTENDS LangModel, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES id, pos, lm, bad
vars == <<id, pos, lm, bad>>
Cs == Cases[id]
Order == Len(Cs.mins)

Init == id \in 1..Len(Cases) /\ pos = 0 /\ lm = <<>> /\ bad = "none"
LoadModel == pos = 0 /\ lm' = Load(Cs.rows, Cs.mins) /\ pos' = 1 /\ UNCHANGED <<id, bad>>

Right(q) ==
  IF "exc" \in DOMAIN q THEN FALSE
  ELSE CASE q.op = "len" -> q.r = Cardinality(DOMAIN lm)
         [] q.op = "in" -> q.r = Has(lm, q.g)
         [] q.op = "has" -> q.r = HasGram(lm, q.g, q.min)
         [] q.op = "top" -> RightTop(q.r, TopElems(lm, q.order), q.limit)
         [] q.op = "best" -> LET b == BestGrams(lm, q.gs) IN IF b = {} THEN q.r = <<>> ELSE q.r # <<>> /\ q.r[1] \in b
         [] q.op = "token" -> LET b == BestTokens(lm, Order, q.toks, q.before, q.after)
                              IN  IF b = {} THEN q.r = <<>> ELSE q.r # <<>> /\ q.r[1] \in b
         [] q.op = "next" -> RightTop(q.r, NextWords(lm, q.toks, Order - 1), q.limit)
         [] q.op = "windows" -> q.r = Windows(q.before, q.tok, q.after, q.order)

Answer == /\ pos \in 1..Len(Cs.qs)
          /\ pos' = pos + 1 /\ UNCHANGED <<id, lm>>
          /\ bad' = IF bad # "none" \/ Right(Cs.qs[pos]) THEN bad
                    ELSE Cs.qs[pos].op \o " at " \o ToString(pos)
Say(clause) == PrintT("CASE " \o ToString(id) \o " " \o clause)
Finish == /\ pos = Len(Cs.qs) + 1 /\ pos > 0 /\ pos' = -1 /\ UNCHANGED <<id, lm, bad>>
          /\ IF "exc" \in DOMAIN Cs THEN Say("FAIL load")
             ELSE IF bad = "none" THEN Say("OK") ELSE Say("FAIL " \o bad)
Next == LoadModel \/ Answer \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
