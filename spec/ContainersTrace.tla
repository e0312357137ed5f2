-------------------------- MODULE ContainersTrace --------------------------
(* Sequences of reads of one object: the object never changes.               *)
EXTENDS Containers, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, i, verdict
vars == <<cid, i, verdict>>
C == Cases[cid]
Init == cid \in 1..Len(Cases) /\ i = 1 /\ verdict = ""
\* reads of an argument, a tuple, a document
Good(e) ==
  CASE e.op = "new" -> e.res = (IF e.code \in Codes THEN "made" ELSE "refused")
    [] e.op = "fields" -> e.res = <<C.arg.w, C.arg.c>> /\ e.aff = C.arg.a
    [] e.op = "tag" -> e.res \in TagsOf(C.arg.c)
    [] e.op = "argtext" -> e.res = ArgText(C.arg, e.dec)
    [] e.op = "len" -> e.res = Len(C.args)
    [] e.op = "code" -> e.res = TupleCode(C.args)
    [] e.op = "text" -> e.res = TupleText(C.args, e.dec)
    [] e.op = "iter" -> e.res = [k \in DOMAIN C.args |-> k]                        \* the very arguments, in order
    [] e.op = "arg" -> IF e.idx < Len(C.args) THEN e.res = e.idx + 1 ELSE e.res = 0       \* 0: refused
    [] e.op = "has" -> e.res = (\E k \in DOMAIN C.args : C.args[k].c = e.code)
    [] e.op = "sentences" -> e.res = C.doc
    [] e.op = "iterdoc" -> e.res = C.doc
    [] e.op = "stuples" -> e.res = AllOf(C.doc)
Step == /\ verdict = "" /\ "events" \in DOMAIN C /\ i <= Len(C.events) /\ UNCHANGED cid /\ i' = i + 1
        /\ verdict' = IF Good(C.events[i]) THEN "" ELSE C.events[i].op
Raised == "exc" \in DOMAIN C /\ verdict = "" /\ verdict' = "exc" /\ UNCHANGED <<cid, i>>
Done == "events" \in DOMAIN C /\ verdict = "" /\ i > Len(C.events) /\ verdict' = "OK" /\ UNCHANGED <<cid, i>>
Next == /\ Step \/ Raised \/ Done
        /\ (verdict' # "") => PrintT("CASE " \o ToString(cid) \o (IF verdict' = "OK" THEN " OK" ELSE " FAIL " \o verdict'))
        /\ (verdict' \notin {"", "OK", "exc"}) => PrintT(<<"EXPECTED", cid, [event |-> C.events[i]]>>)
Spec == Init /\ [][Next]_vars
=============================================================================
