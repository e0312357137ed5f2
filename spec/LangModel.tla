----------------------------- MODULE LangModel -----------------------------
(* The queryable language model.  The state is the set of loaded n-grams:  *)
(* a function from n-gram (sequence of token strings) to [c, p] where c is *)
(* the count and p > 0 the probability (scaled to an integer).             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

\* rows[o]: sequence of [g, c, p] stored for order o; mins[o]: minimal count
Load(rows, mins) ==
  LET keep == UNION {{rows[o][k] : k \in {k \in DOMAIN rows[o] : rows[o][k].c >= mins[o]}} : o \in DOMAIN mins}
  IN  [g \in {r.g : r \in keep} |-> LET r == CHOOSE r \in keep : r.g = g IN [c |-> r.c, p |-> r.p]]

Has(lm, g) == g \in DOMAIN lm
PP(lm, g) == IF Has(lm, g) THEN lm[g].p ELSE 0
HasGram(lm, g, min) == min >= 1 /\ Has(lm, g) /\ lm[g].c >= min

\* sequences of gs (candidates) that are a best n-gram; empty if none is known
BestGrams(lm, gs) ==
  IF ~\E k \in DOMAIN gs : Has(lm, gs[k]) THEN {}
  ELSE LET m == Max({PP(lm, gs[k]) : k \in DOMAIN gs}) IN {gs[k] : k \in {k \in DOMAIN gs : PP(lm, gs[k]) = m}}

-----------------------------------------------------------------------------
\* windows of `order` tokens around a token that contain the token
Windows(before, tok, after, order) ==
  LET b == SubSeq(before, Max({1, Len(before) - (order - 1) + 1}), Len(before))
      a == SubSeq(after, 1, Min({order - 1, Len(after)}))
      all == b \o <<tok>> \o a
  IN  IF Len(all) < order THEN <<>> ELSE [i \in 1..(Len(all) - order + 1) |-> SubSeq(all, i, i + order - 1)]

\* evidence for a token in context: best probability per order, from the highest order down to the unigram
Scores(lm, maxOrder, before, tok, after) ==
  [k \in 1..maxOrder |->
     LET o == maxOrder - k + 1
         w == Windows(before, tok, after, o)
     IN  IF w = <<>> THEN 0 ELSE Max({PP(lm, w[i]) : i \in DOMAIN w})]

RECURSIVE LexLess(_, _, _)
LexLess(x, y, k) == IF k > Len(x) THEN FALSE
                    ELSE x[k] < y[k] \/ (x[k] = y[k] /\ LexLess(x, y, k + 1))

BestTokens(lm, maxOrder, toks, before, after) ==
  IF ~\E k \in DOMAIN toks : Has(lm, <<toks[k]>>) THEN {}
  ELSE {toks[k] : k \in {k \in DOMAIN toks :
          ~\E j \in DOMAIN toks : LexLess(Scores(lm, maxOrder, before, toks[k], after),
                                          Scores(lm, maxOrder, before, toks[j], after), 1)}}

-----------------------------------------------------------------------------
\* a list of [.., p] is one of the right answers to "the `limit` most probable elements of S"
\* limit = -1: no limit
RightTop(res, elems, limit) ==
  /\ Len(res) = (IF limit = -1 THEN Cardinality(elems) ELSE Min({limit, Cardinality(elems)}))
  /\ \A k \in DOMAIN res : res[k] \in elems
  /\ \A k, j \in DOMAIN res : k < j => (res[k] # res[j] /\ res[k].p >= res[j].p)
  /\ res # <<>> => \A e \in elems : (\A k \in DOMAIN res : res[k] # e) => e.p <= res[Len(res)].p

TopElems(lm, order) == {[g |-> g, c |-> lm[g].c, p |-> lm[g].p] : g \in {g \in DOMAIN lm : Len(g) = order}}

\* next words after a text: those of the longest known context of at most maxOrder - 1 tokens
Followers(lm, ctx) == {[w |-> g[Len(g)], p |-> lm[g].p] : g \in {g \in DOMAIN lm : Len(g) > 1 /\ Front(g) = ctx}}
Suffix(toks, n) == SubSeq(toks, Max({1, Len(toks) - n + 1}), Len(toks))
RECURSIVE NextWords(_, _, _)
NextWords(lm, toks, n) ==
  IF n = 0 THEN {}
  ELSE LET f == Followers(lm, Suffix(toks, n)) IN IF f # {} THEN f ELSE NextWords(lm, toks, n - 1)
=============================================================================
