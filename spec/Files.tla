-------------------------------- MODULE Files --------------------------------
(* The data folder: a path (sequence of names) holds a text (sequence of     *)
(* lines, a line being a sequence of code points) or a stored value.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES disk                        \* path -> [kind: "text", lines] or [kind: "value", v]
FInit == disk = <<>>
Write(path, lines) == disk' = (path :> [kind |-> "text", lines |-> lines]) @@ disk
Store(path, v) == disk' = (path :> [kind |-> "value", v |-> v]) @@ disk
Holds(path, kind) == path \in DOMAIN disk /\ disk[path].kind = kind

Blank == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 8192, 8193, 8194, 8195, 8196, 8197, 8198, 8199, 8200, 8201, 8202, 8232, 8233, 8239, 8287, 12288, 5760}
RECURSIVE LStrip(_), RStrip(_), Cells(_, _, _)
LStrip(w) == IF w # <<>> /\ w[1] \in Blank THEN LStrip(Tail(w)) ELSE w
RStrip(w) == IF w # <<>> /\ w[Len(w)] \in Blank THEN RStrip(SubSeq(w, 1, Len(w) - 1)) ELSE w
Strip(w) == RStrip(LStrip(w))
\* the tab-separated columns of a line
Cells(w, i, cur) == IF i > Len(w) THEN <<cur>> ELSE IF w[i] = 9 THEN <<cur>> \o Cells(w, i + 1, <<>>) ELSE Cells(w, i + 1, Append(cur, w[i]))
Row(line) == Cells(Strip(line), 1, <<>>)
\* a word list: every line without the blanks around it
SetOf(lines) == {Strip(lines[k]) : k \in DOMAIN lines}
\* a table: two columns per line, the last line of a key counts
IsTable(lines) == \A k \in DOMAIN lines : Len(Row(lines[k])) = 2
DictOf(lines) == LET n == Len(lines) IN
  {<<Row(lines[k])[1], Row(lines[k])[2]>> : k \in {k \in 1..n : \A j \in (k + 1)..n : Row(lines[j])[1] # Row(lines[k])[1]}}
=============================================================================
