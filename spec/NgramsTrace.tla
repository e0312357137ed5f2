---------------------------- MODULE NgramsTrace ----------------------------
(* Each case: sentences, last order, number of workers, method; observed   *)
(* extraction per order, counts and probabilities of every n-gram.         *)
EXTENDS Ngrams, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES id, pc, st
vars == <<id, pc, st>>

Cs == Cases[id]
Init == id \in 1..Len(Cases) /\ pc = "extract" /\ st = <<>>

Say(clause) == PrintT("CASE " \o ToString(id) \o " " \o clause)

ExtractOK == \A n \in 1..Cs.last : Cs.grams[n] = GramsOf(Cs.sents, n)

Extract == /\ pc = "extract" /\ "sents" \in DOMAIN Cs
           /\ st' = (IF "times" \in DOMAIN Cs THEN WeightedStoreOf(Cs.sents, Cs.times, Cs.last)
                     ELSE StoreOf(Cs.sents, Cs.last))
           /\ UNCHANGED id
           /\ IF "exc" \in DOMAIN Cs THEN Say("FAIL raised") /\ pc' = "done"
              ELSE IF ~ExtractOK
                   THEN /\ Say("FAIL extraction")
                        /\ PrintT(<<"EXPECTED", id, [n \in 1..Cs.last |-> GramsOf(Cs.sents, n)]>>)
                        /\ pc' = "done"
                   ELSE pc' = "smooth"

\* obs[n]: sequence of [g, count, p]
ObsSet(n) == {<<Cs.obs[n][k].g, Cs.obs[n][k].count>> : k \in DOMAIN Cs.obs[n]}
CountsOK == \A n \in 1..Cs.last :
              /\ Len(Cs.obs[n]) = Cardinality(Grams(st, n))
              /\ ObsSet(n) = {<<g, st[n][g]>> : g \in Grams(st, n)}

Sum15(n) == LET RECURSIVE Go(_, _)
                Go(k, acc) == IF k > Len(Cs.obs[n]) THEN acc ELSE Go(k + 1, SAdd(acc, Cs.obs[n][k].p))
            IN  Go(1, S(0))

MleOK == \A n \in 1..Cs.last : \A k \in DOMAIN Cs.obs[n] :
            LET o == Cs.obs[n][k] r == MLE(st, o.g) IN Close(o.p, r.num, r.den, 100)
MleSum == \A n \in 1..Cs.last : Cs.obs[n] # <<>> => Close(Sum15(n), S(1), FromInt(1), 100000)

MknOK == LET ds == AllDiscounts(st, Cs.last) IN
         \A n \in 1..Cs.last : \A k \in DOMAIN Cs.obs[n] :
            LET o == Cs.obs[n][k] r == MKN(st, ds, o.g) IN Close(o.p, r.num, r.den, 100)

Smooth == /\ pc = "smooth" /\ pc' = "done" /\ UNCHANGED <<id, st>>
          /\ IF Cs.method = "extract" THEN Say("OK")
             ELSE IF Cs.method = "mkn" /\ ~Enough(st, Cs.last)
                  THEN (IF "refused" \in DOMAIN Cs THEN Say("OK") ELSE Say("FAIL sparse"))
             ELSE IF "refused" \in DOMAIN Cs THEN Say("FAIL refused")
             ELSE IF ~CountsOK THEN Say("FAIL counts")
             ELSE IF Cs.method = "mle"
                  THEN (IF ~MleOK THEN Say("FAIL mle") ELSE IF ~MleSum THEN Say("FAIL mlesum") ELSE Say("OK"))
             ELSE IF ~MknOK THEN Say("FAIL mkn") ELSE Say("OK")
Next == Extract \/ Smooth
Spec == Init /\ [][Next]_vars
\* counts are monotone: no n-gram occurs more often than its sub-n-grams
SubCounts == pc # "smooth" \/ \A n \in 2..Cs.last : \A g \in Grams(st, n) :
               st[n][g] <= st[n - 1][Front(g)] /\ st[n][g] <= st[n - 1][Tail(g)]
=============================================================================
