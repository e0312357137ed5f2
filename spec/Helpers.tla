------------------------------- MODULE Helpers -------------------------------
(* Words and marked texts as sequences of code points.                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt
Lower == 97..122
Upper == 65..90
VowelCodes == {97, 101, 105, 111, 117, 121}                 \* y counts as a vowel
ConsonantCodes == Lower \ VowelCodes
OnlyLetters(w) == w # <<>> /\ \A k \in DOMAIN w : w[k] \in Lower \cup Upper
OnlyLower(w) == w # <<>> /\ \A k \in DOMAIN w : w[k] \in Lower
EndsIn(w, e) == Len(w) >= Len(e) /\ SubSeq(w, Len(w) - Len(e) + 1, Len(w)) = e
BeginsWith(w, b) == Len(w) >= Len(b) /\ SubSeq(w, 1, Len(b)) = b
None == <<-1>>                                              \* no answer
\* what remains of a word without its ending, if that is long enough
StartOf(w, e, min) == IF EndsIn(w, e) /\ Len(w) > Len(e) /\ Len(w) - Len(e) >= min THEN SubSeq(w, 1, Len(w) - Len(e)) ELSE None
\* a word with one hyphen is cut there, another one after the first of the prefixes it begins with
PrefixAndBase(w, ps) ==
  LET hs == {k \in DOMAIN w : w[k] = 45}
      ks == {k \in DOMAIN ps : BeginsWith(w, ps[k])}
  IN  IF Cardinality(hs) = 1 THEN LET h == CHOOSE h \in hs : TRUE IN <<SubSeq(w, 1, h), SubSeq(w, h + 1, Len(w))>>
      ELSE IF ks = {} THEN <<None>>
      ELSE LET k == CHOOSE k \in ks : \A j \in ks : k <= j IN <<ps[k], SubSeq(w, Len(ps[k]) + 1, Len(w))>>
DoubledEnd(w) == LET n == Len(w) IN
  IF n >= 3 /\ w[n] = w[n - 1] /\ w[n] \in ConsonantCodes /\ w[n - 2] \in VowelCodes THEN <<<<w[n]>>, <<w[n], w[n]>>>> ELSE <<None>>

RECURSIVE GlueC(_, _), CutAt(_, _, _, _)
GlueC(ws, sep) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o sep \o GlueC(Tail(ws), sep)
CutAt(w, c, i, cur) == IF i > Len(w) THEN <<cur>> ELSE IF w[i] = c THEN <<cur>> \o CutAt(w, c, i + 1, <<>>) ELSE CutAt(w, c, i + 1, Append(cur, w[i]))
Given(ws) == SelectSeq(ws, LAMBDA x : x # None)              \* what is absent is left out
Bar == 449                                                  \* joins associated words
Chevron == 187                                              \* attaches attributes
Function(name, args) == name \o <<40>> \o GlueC(Given(args), <<44, 32>>) \o <<41>>
Associated(ws) == GlueC(Given(ws), <<Bar>>)
Attached(w, ws) == GlueC(<<w>> \o Given(ws), <<Chevron>>)
\* reading back
Detached(t) == CutAt(t, Chevron, 1, <<>>)
Dissociated(t) == LET c == CutAt(t, Bar, 1, <<>>) IN IF Len(c) = 2 THEN c ELSE <<None>>
Name(t) == LET c == CutAt(t, 40, 1, <<>>) IN <<c[1], SubSeq(c[2], 1, Len(c[2]) - 1)>>
\* the round trips
RoundTrip(w, ws) == /\ (\A x \in {w} \cup {ws[k] : k \in DOMAIN ws} : Chevron \notin {x[k] : k \in DOMAIN x}) => Detached(Attached(w, ws)) = <<w>> \o Given(ws)
=============================================================================
