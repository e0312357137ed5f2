---------------------------- MODULE Sentencizer ----------------------------
(* The sentencizer: a text is cut into lines, quoted spans then bracketed  *)
(* spans of a line are folded into one opaque token each, the folded line  *)
(* is tokenized and cut at sentence enders, and folded spans are tokenized *)
(* on their own and unfolded where they stood.                             *)
EXTENDS Tokenizer

QS == 3898
QE == 3899
BS == 10629
BE == 10630

NewLine == Sq(<<Star(SPC), Plus(In({9, 10, 13})), Star(SPC)>>)

RECURSIVE SplitLines(_, _)
SplitLines(s, i) ==
  LET f == FindFrom(NewLine, s, i)
  IN  IF f = <<>> THEN << SubSeq(s, i, Len(s)) >>
      ELSE << SubSeq(s, i, f[1] - 1) >> \o SplitLines(s, f[2])
\* the separator is found at most once per position, so the empty text is one empty line
Lines(text) == SplitLines(text, 1)

\* a sentence may end inside a quotation: its end is marked by a pilcrow
MarkQuotedEnds(s) == Squeeze(Replace(s, <<Dot, Quote>>, <<Dot, Quote, Pilcrow, SP>>))

NextOf(s, i, c) == IF i > Len(s) THEN 0
                   ELSE LET k == SelectInSeq(SubSeq(s, i, Len(s)), LAMBDA x : x = c) IN IF k = 0 THEN 0 ELSE i + k - 1

Unpilcrow(s) == [k \in 1..Len(s) |-> IF s[k] = Pilcrow THEN SP ELSE s[k]]

RECURSIVE FoldFrom(_, _, _, _, _, _, _, _)
\* replaces every open..close span of s by a placeholder <<start, number, end>>
FoldFrom(s, i, open, close, st, en, ctr, acc) ==
  LET a == NextOf(s, i, open)
      b == IF a = 0 THEN 0 ELSE NextOf(s, a + 1, close)
  IN  IF b = 0 THEN <<acc \o SubSeq(s, i, Len(s)), ctr>>
      ELSE FoldFrom(s, b + 1, open, close, st, en, Append(ctr, Unpilcrow(SubSeq(s, a + 1, b - 1))),
                    acc \o SubSeq(s, i, a - 1) \o <<SP, st>> \o NumCodes(Len(ctr)) \o <<en, SP>>)
Fold(s, open, close, st, en, ctr) == FoldFrom(s, 1, open, close, st, en, ctr, <<>>)

Enders == Chars(".?!:")
IsEnder(t) == t = <<Pilcrow>> \/ (t # <<>> /\ \A k \in DOMAIN t : t[k] \in Enders)

RECURSIVE CutFrom(_, _, _, _)
CutFrom(toks, i, cur, acc) ==
  IF i > Len(toks) THEN (IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE IF IsEnder(toks[i])
       THEN CutFrom(toks, i + 1, <<>>, Append(acc, IF toks[i] = <<Pilcrow>> THEN cur ELSE Append(cur, toks[i])))
       ELSE CutFrom(toks, i + 1, Append(cur, toks[i]), acc)

FoldNum(t) == NumOf(SubSeq(t, 2, Len(t) - 1)) + 1
IsFold(t, st) == t # <<>> /\ t[1] = st

UnfoldQuote(t, quotes) == << <<Quote>> >> \o Tok(quotes[FoldNum(t)]) \o << <<Quote>> >>
UnfoldNested(t, quotes) == IF IsFold(t, QS) THEN UnfoldQuote(t, quotes) ELSE <<t>>
Unfold(t, quotes, brackets) ==
  IF IsFold(t, QS) THEN UnfoldQuote(t, quotes)
  ELSE IF IsFold(t, BS)
       THEN LET inner == Tok(brackets[FoldNum(t)])
            IN  << <<40>> >> \o Flat([k \in 1..Len(inner) |-> UnfoldNested(inner[k], quotes)]) \o << <<41>> >>
       ELSE <<t>>

\* the sentences of one line (numbering of folded spans is local: it has no effect on the outcome)
LineSentences(line) ==
  LET q == Fold(MarkQuotedEnds(line), Quote, Quote, QS, QE, <<>>)
      b == Fold(Squeeze(q[1]), 40, 41, BS, BE, <<>>)
      sents == CutFrom(Tok(Squeeze(b[1])), 1, <<>>, <<>>)
  IN  [k \in 1..Len(sents) |->
         Flat([j \in 1..Len(sents[k]) |-> Unfold(sents[k][j], q[2], b[2])])]

Sentences(text) == LET ls == Lines(text) IN Flat([k \in 1..Len(ls) |-> LineSentences(ls[k])])

-----------------------------------------------------------------------------
(* Requirements stated without reference to the algorithm *)
AllChars(sents) == Flat([k \in 1..Len(sents) |-> Flat(sents[k])])

\* pilcrows stand for paragraph ends: they may disappear
NoPil(s) == SelectSeq(s, LAMBDA c : c # Pilcrow)
SentConserved(text, sents) == Aligned(NoPil(Visible(text)), 1, NoPil(AllChars(sents)), 1)

CountOf(s, c) == Cardinality({k \in DOMAIN s : s[k] = c})
CurlyDouble == {8220, 8221, 8243}

\* text on one line, quotation marks paired and all straight: no sentence holds half a quotation
QuotesWhole(text, sents) ==
  (/\ ~Has(text, {9, 10, 13} \cup CurlyDouble)
   /\ CountOf(text, Quote) % 2 = 0)
  => \A k \in DOMAIN sents : CountOf(Flat(sents[k]), Quote) % 2 = 0

\* Passages of a line (given by its visible characters): a quotation goes from a straight quotation mark to the next
\* one, a parenthesis from an opening bracket to the next closing one, brackets inside quotations not counting.
\* PassageEnds yields the offsets strictly inside a passage: no sentence may end there.
RECURSIVE QuoteSpans(_, _), BracketSpans(_, _, _, _)
QuoteSpans(v, i) == LET a == NextOf(v, i, Quote) b == IF a = 0 THEN 0 ELSE NextOf(v, a + 1, Quote)
                    IN  IF b = 0 THEN {} ELSE {<<a, b>>} \cup QuoteSpans(v, b + 1)
BracketSpans(v, i, open, quoted) ==
  IF i > Len(v) THEN {}
  ELSE IF i \in quoted THEN BracketSpans(v, i + 1, open, quoted)
  ELSE IF v[i] = 40 /\ open = 0 THEN BracketSpans(v, i + 1, i, quoted)
  ELSE IF v[i] = 41 /\ open # 0 THEN {<<open, i>>} \cup BracketSpans(v, i + 1, 0, quoted)
  ELSE BracketSpans(v, i + 1, open, quoted)
Within(v) == LET qs == QuoteSpans(v, 1)
                 bs == BracketSpans(v, 1, 0, UNION {q[1]..q[2] : q \in qs})
             IN  UNION {x[1]..(x[2] - 1) : x \in qs \cup bs}
RECURSIVE WithinLines(_, _)
WithinLines(ls, o) == IF ls = <<>> THEN {} ELSE LET v == NoPil(Visible(Head(ls))) IN {o + k : k \in Within(v)} \cup WithinLines(Tail(ls), o + Len(v))
RECURSIVE EndOffsets(_, _)
EndOffsets(sents, o) == IF sents = <<>> THEN {} ELSE LET n == o + Len(NoPil(Flat(Head(sents)))) IN {n} \cup EndOffsets(Tail(sents), n)
PassagesWhole(text, sents) ==
  (~Has(text, CurlyDouble) /\ NoPil(Visible(text)) = NoPil(AllChars(sents))) => EndOffsets(sents, 0) \cap WithinLines(Lines(text), 0) = {}

\* a sentence ender standing outside quotes and brackets ends its sentence
OnlyLast(sents, text) ==
  ~Has(text, {Quote, 40, 41} \cup CurlyDouble)
  => \A k \in DOMAIN sents : \A j \in 1..(Len(sents[k]) - 1) : ~IsEnder(sents[k][j])
============================================================================
