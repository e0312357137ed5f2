----------------------------- MODULE FilesTrace -----------------------------
EXTENDS Files, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, i, verdict
vars == <<disk, cid, i, verdict>>
C == Cases[cid]
Init == cid \in 1..Len(Cases) /\ FInit /\ i = 1 /\ verdict = ""
E == C.ops[i]
Range(s) == {s[k] : k \in DOMAIN s}
\* observed sets and tables come as sequences without order
Same(seq, set) == Range(seq) = set /\ Len(seq) = Cardinality(set)
\* what is missing is refused; reading a text as a value or a value as a text is nobody's business
Misused == E.op \in {"read", "set", "dict", "value"} /\ E.path \in DOMAIN disk /\ disk[E.path].kind # (IF E.op = "value" THEN "value" ELSE "text")
Good == Misused \/
  CASE E.op = "read" -> IF Holds(E.path, "text") THEN E.res = "ok" /\ E.lines = disk[E.path].lines ELSE E.res = "exc"
    [] E.op = "set" -> IF Holds(E.path, "text") THEN E.res = "ok" /\ Same(E.items, SetOf(disk[E.path].lines)) ELSE E.res = "exc"
    [] E.op = "dict" -> IF Holds(E.path, "text") /\ IsTable(disk[E.path].lines) THEN E.res = "ok" /\ Same(E.items, DictOf(disk[E.path].lines)) ELSE E.res = "exc"
    [] E.op = "value" -> IF Holds(E.path, "value") THEN E.res = "ok" /\ E.v = disk[E.path].v ELSE E.res = "exc"
    [] E.op = "where" -> E.res = "ok" /\ E.at = E.path
    [] OTHER -> FALSE
Step == /\ verdict = "" /\ i <= Len(C.ops) /\ UNCHANGED cid /\ i' = i + 1
        /\ CASE E.op = "write" -> Write(E.path, E.lines) /\ verdict' = (IF E.res = "ok" THEN "" ELSE "write")
             [] E.op = "store" -> Store(E.path, E.v) /\ verdict' = (IF E.res = "ok" THEN "" ELSE "store")
             [] OTHER -> UNCHANGED disk /\ verdict' = (IF Good THEN "" ELSE E.op)
Done == verdict = "" /\ i > Len(C.ops) /\ verdict' = "OK" /\ UNCHANGED <<disk, cid, i>>
Next == /\ Step \/ Done
        /\ (verdict' # "") => PrintT("CASE " \o ToString(cid) \o (IF verdict' = "OK" THEN " OK" ELSE " FAIL " \o verdict'))
        /\ (verdict' \notin {"", "OK"}) => PrintT(<<"EXPECTED", cid, [event |-> C.ops[i]]>>)
Spec == Init /\ [][Next]_vars
=============================================================================
