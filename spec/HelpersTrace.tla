---------------------------- MODULE HelpersTrace ----------------------------
EXTENDS Helpers, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, i, verdict
vars == <<cid, i, verdict>>
C == Cases[cid]
E == C.ops[i]
Init == cid \in 1..Len(Cases) /\ i = 1 /\ verdict = ""
Xor(bs) == Cardinality({k \in DOMAIN bs : ~bs[k]}) % 2 = 1
\* groups: the items of a key so far, in order (a list) or once each (a set)
Of(hist, key) == LET h == SelectSeq(hist, LAMBDA x : x[1] = key) IN [k \in DOMAIN h |-> h[k][2]]
Keys(hist) == {hist[k][1] : k \in DOMAIN hist}
Ran(s) == {s[k] : k \in DOMAIN s}
Expected ==
  CASE E.op = "letters" -> OnlyLetters(E.w)
    [] E.op = "lower" -> OnlyLower(E.w)
    [] E.op = "capital" -> E.w[1] \in Upper
    [] E.op = "consonant" -> E.w[Len(E.w)] \in ConsonantCodes
    [] E.op = "start" -> StartOf(E.w, E.e, E.min)
    [] E.op = "prefix" -> PrefixAndBase(E.w, E.ps)
    [] E.op = "doubled" -> DoubledEnd(E.w)
    [] E.op = "function" -> Function(E.w, E.ws)
    [] E.op = "unfunction" -> <<E.w, Associated(E.ws)>>
    [] E.op = "associate" -> Associated(E.ws)
    [] E.op = "dissociate" -> Dissociated(E.w)
    [] E.op = "attach" -> Attached(E.w, E.ws)
    [] E.op = "detach" -> Detached(E.w)
    [] E.op = "xnor" -> ~Xor(E.bs)
    [] OTHER -> "none"
Good ==
  CASE E.op = "lists" -> /\ {E.res[k][1] : k \in DOMAIN E.res} = Keys(E.hist) /\ Len(E.res) = Cardinality(Keys(E.hist))
                         /\ \A k \in DOMAIN E.res : E.res[k][2] = Of(E.hist, E.res[k][1])
    [] E.op = "sets" -> /\ {E.res[k][1] : k \in DOMAIN E.res} = Keys(E.hist) /\ Len(E.res) = Cardinality(Keys(E.hist))
                        /\ \A k \in DOMAIN E.res : Ran(E.res[k][2]) = Ran(Of(E.hist, E.res[k][1])) /\ Len(E.res[k][2]) = Cardinality(Ran(E.res[k][2]))
    [] E.op = "reverse" -> \* the last entry of a value counts
                        /\ Len(E.res) = Cardinality({x[2] : x \in Ran(E.hist)})
                        /\ Ran(E.res) = {<<E.hist[k][2], E.hist[k][1]>> : k \in {k \in DOMAIN E.hist : \A j \in (k + 1)..Len(E.hist) : E.hist[j][2] # E.hist[k][2]}}
    [] OTHER -> E.res = Expected
Step == /\ verdict = "" /\ i <= Len(C.ops) /\ UNCHANGED cid /\ i' = i + 1
        /\ verdict' = IF E.exc THEN "exc" ELSE IF Good THEN "" ELSE E.op
Done == verdict = "" /\ i > Len(C.ops) /\ verdict' = "OK" /\ UNCHANGED <<cid, i>>
Next == /\ Step \/ Done
        /\ (verdict' # "") => PrintT("CASE " \o ToString(cid) \o (IF verdict' = "OK" THEN " OK" ELSE " FAIL " \o verdict'))
        /\ (verdict' \notin {"", "OK"}) => PrintT(<<"EXPECTED", cid, [event |-> C.ops[i]]>>)
Spec == Init /\ [][Next]_vars
\* reading back what was marked (the specification itself)
Marks == \A k \in DOMAIN C.ops : C.ops[k].op = "attach" => RoundTrip(C.ops[k].w, C.ops[k].ws)
=============================================================================
