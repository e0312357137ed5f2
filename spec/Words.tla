------------------------------- MODULE Words --------------------------------
(* Words as strings: letters, beginnings and endings; and the view of the   *)
(* language model that word-level normalization uses: a function from       *)
(* n-gram text to [c, p], no two n-grams having the same p.                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Ch(w, i) == SubSeq(w, i, i)
FromEnd(w, k) == IF k > Len(w) THEN "" ELSE Ch(w, Len(w) - k + 1)     \* k-th letter from the end
Starts(w, s) == Len(w) >= Len(s) /\ SubSeq(w, 1, Len(s)) = s
Ends(w, s) == Len(w) >= Len(s) /\ SubSeq(w, Len(w) - Len(s) + 1, Len(w)) = s
Cut(w, n) == SubSeq(w, 1, Len(w) - n)                                 \* without its last n letters
From(w, i) == SubSeq(w, i, Len(w))

Vowels == {"e", "y", "u", "i", "o", "a"}
Consonants == {"q","w","r","t","p","s","d","f","g","h","j","k","l","z","x","c","v","b","n","m"}
Letters == Vowels \cup Consonants

Uppers == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lowers == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
LowerCh(c) == IF \E k \in 1..26 : Uppers[k] = c THEN Lowers[CHOOSE k \in 1..26 : Uppers[k] = c] ELSE c
RECURSIVE Lower(_)
Lower(w) == IF w = "" THEN "" ELSE LowerCh(Ch(w, 1)) \o Lower(From(w, 2))

RECURSIVE ReplaceAll(_, _, _)
ReplaceAll(w, a, b) == IF Len(w) < Len(a) THEN w
                       ELSE IF Starts(w, a) THEN b \o ReplaceAll(From(w, Len(a) + 1), a, b)
                       ELSE Ch(w, 1) \o ReplaceAll(From(w, 2), a, b)
Occurs(w, a) == \E i \in 1..Len(w) : Starts(From(w, i), a)

Hyphens(w) == {i \in 1..Len(w) : Ch(w, i) = "-"}
Prefixes == {"re", "un", "mis", "dis", "out", "co", "sub", "grand"}
\* <<>> or <<prefix, base>>
PrefixOf(w) ==
  IF Cardinality(Hyphens(w)) = 1
  THEN LET i == CHOOSE i \in Hyphens(w) : TRUE IN <<SubSeq(w, 1, i), From(w, i + 1)>>
  ELSE IF \E p \in Prefixes : Starts(w, p)
       THEN LET p == CHOOSE p \in Prefixes : Starts(w, p) IN <<p, From(w, Len(p) + 1)>>
       ELSE <<>>

-----------------------------------------------------------------------------
Known(lm, g, min) == g \in DOMAIN lm /\ lm[g].c >= min
Prob(lm, g) == IF g \in DOMAIN lm THEN lm[g].p ELSE 0
NoWord == "\n"     \* never a word
\* the most probable of a set of candidates
Best(lm, cands) == LET k == cands \cap DOMAIN lm IN
                   IF k = {} THEN NoWord ELSE CHOOSE g \in k : \A h \in k : lm[h].p <= lm[g].p
=============================================================================
