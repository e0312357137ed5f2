---------------------------- MODULE BuilderTrace ----------------------------
(* Each case is a history of one data folder: builds and loads.  A build   *)
(* takes several steps: sentencize each text, count the n-grams, smooth    *)
(* and write.  It is broken when its texts cannot be read to the end.      *)
EXTENDS Builder, TLC, Json, IOUtils
Sen == INSTANCE Sentencizer
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES id, pos, ph, work, files, bad
vars == <<id, pos, ph, work, files, bad>>
Cs == Cases[id]
Ev == Cs.events[pos]
MAXO == 4
More == pos <= Len(Cs.events)

\* files[o]: set of rows; work: what the running build has so far
Init == /\ id \in 1..Len(Cases) /\ pos = 1 /\ bad = "none" /\ files = [o \in 1..MAXO |-> {}]
        /\ ph = 0 /\ work = [sents |-> <<>>, st |-> <<>>]

Note(ok, clause) == bad' = IF bad # "none" \/ ok THEN bad ELSE clause \o " at " \o ToString(pos)

\* ph = k: k texts sentencized
Sentencize == /\ More /\ Ev.op = "build" /\ ph \in 0..(Len(Ev.texts) - 1)
              /\ work' = [work EXCEPT !.sents = @ \o Sen!Sentences(Ev.texts[ph + 1])]
              /\ ph' = ph + 1 /\ UNCHANGED <<id, pos, files, bad>>
Count == /\ More /\ Ev.op = "build" /\ ph = Len(Ev.texts)
         /\ work' = [work EXCEPT !.st = StoreOf(work.sents, Ev.last)]
         /\ ph' = -1 /\ UNCHANGED <<id, pos, files, bad>>
Write ==
  /\ More /\ ph = -1 /\ ph' = -2
  /\ files' = IF Ev.broken \/ Refuses(work.st, Ev.method, Ev.last) THEN files
              ELSE [o \in 1..MAXO |-> IF o <= Ev.last THEN RowsOf(work.st, Ev.method, Ev.last, o) ELSE files[o]]
  /\ UNCHANGED <<id, pos, work, bad>>
Compare ==
  /\ More /\ ph = -2 /\ ph' = 0 /\ pos' = pos + 1 /\ UNCHANGED <<id, files>>
  /\ work' = [sents |-> <<>>, st |-> <<>>]
  /\ IF "exc" \in DOMAIN Ev THEN Note(FALSE, "raised")
     ELSE IF Ev.broken # (Ev.r = "broken") \/ (~Ev.broken /\ Refuses(work.st, Ev.method, Ev.last) # (Ev.r = "refused")) THEN Note(FALSE, "refusal")
     ELSE IF ~\A o \in 1..MAXO : SameRows(Ev.files[o], files[o]) THEN Note(FALSE, "files")
     ELSE Note(\A o \in 1..MAXO : Sorted(Ev.files[o]), "order")

Loaded == /\ More /\ Ev.op = "load" /\ pos' = pos + 1 /\ UNCHANGED <<id, files, ph, work>>
          /\ IF "exc" \in DOMAIN Ev THEN Note(FALSE, "raised")
             ELSE Note(/\ \A o \in DOMAIN Ev.mins : SameRows(Ev.top[o], {r \in files[o] : r.count >= Ev.mins[o]})
                       /\ Ev.len = SumPairs({<<o, Cardinality({r \in files[o] : r.count >= Ev.mins[o]})>>
                                             : o \in DOMAIN Ev.mins}),
                       "load")
Make == /\ More /\ Ev.op = "make" /\ pos' = pos + 1 /\ UNCHANGED <<id, files, ph, work>>
        /\ Note(Ev.r = (IF Ev.method \notin {"modified_kneser_ney", "maximum_likelihood_estimation"}
                        THEN "ArgumentValueError"
                        ELSE IF Ev.method = "modified_kneser_ney" /\ Ev.last < 2 THEN "ModifiedKneserNeyMinOrderError"
                        ELSE "ok"), "make")
Say(clause) == PrintT("CASE " \o ToString(id) \o " " \o clause)
Finish == pos = Len(Cs.events) + 1 /\ pos' = 9999 /\ UNCHANGED <<id, ph, work, files, bad>>
          /\ (IF bad = "none" THEN Say("OK") ELSE Say("FAIL " \o bad))
Next == Sentencize \/ Count \/ Write \/ Compare \/ Loaded \/ Make \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
