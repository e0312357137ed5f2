------------------------------ MODULE Vectors ------------------------------
(* The numeric input of the networks.  A sentence of at most MaxSent words   *)
(* is laid out in MaxSent + 2 rows: a start row, the words, an end row, and  *)
(* empty rows.  Words are sequences of character numbers.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Text
MaxSent == 50
MaxWord == 20
Rows == MaxSent + 2
Cols == MaxWord + 2
Dagger == 8224
DDagger == 8225
StartWord == <<643, 643, 643>>
EndWord == <<644, 644, 644>>

\* cmap: sequence of <<char, code>>; unk: the code of every other character
Code(cmap, unk, ch) == LET S == {k \in DOMAIN cmap : cmap[k][1] = ch} IN IF S = {} THEN unk ELSE cmap[CHOOSE k \in S : TRUE][2]
Kept(w) == SubSeq(w, IF Len(w) > MaxWord THEN Len(w) - MaxWord + 1 ELSE 1, Len(w))
Marked(w) == <<Dagger>> \o Kept(w) \o <<DDagger>>
CharRow(w, cmap, unk) == LET m == Marked(w) IN [c \in 1..Cols |-> IF c <= Len(m) THEN Code(cmap, unk, m[c]) ELSE 0]
\* vocab: sequence of <<word, id>>; the row of an unknown word is 0
LowerX(w) == [k \in DOMAIN w |-> IF w[k] = 201 THEN 233 ELSE IF w[k] = 425 THEN 643 ELSE Low1(w[k])]
WordRow(w, vocab) == LET S == {k \in DOMAIN vocab : vocab[k][1] = LowerX(w)} IN IF S = {} THEN 0 ELSE vocab[CHOOSE k \in S : TRUE][2]

Layout(tokens) == <<StartWord>> \o tokens \o <<EndWord>>
Chars2(tokens, cmap, unk) == LET l == Layout(tokens) IN [r \in 1..Rows |-> IF r <= Len(l) THEN CharRow(l[r], cmap, unk) ELSE [c \in 1..Cols |-> 0]]
Words2(tokens, vocab) == LET l == Layout(tokens) IN [r \in 1..Rows |-> IF r <= Len(l) THEN WordRow(l[r], vocab) ELSE 0]
=============================================================================
