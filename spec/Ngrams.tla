------------------------------- MODULE Ngrams -------------------------------
(* From sentences to n-gram counts and smoothed probabilities.             *)
(* Tokens are sequences of code points; an n-gram is a sequence of tokens. *)
EXTENDS Text, BigNat, Functions, FiniteSetsExt

ValidToken(t) ==
  \/ t = C("I")
  \/ /\ t # <<>> /\ t[1] \notin UPPER
     /\ \A k \in DOMAIN t : t[k] \in LETTER

LowerGram(g) == [k \in 1..Len(g) |-> Lower(g[k])]
ValidGram(g) == \A k \in DOMAIN g : ValidToken(g[k])

\* all n-grams of a sentence, from left to right
SentGrams(sent, n) ==
  LET ws == IF Len(sent) < n THEN <<>> ELSE [i \in 1..(Len(sent) - n + 1) |-> SubSeq(sent, i, i + n - 1)]
      good == SelectSeq(ws, ValidGram)
  IN  [i \in 1..Len(good) |-> LowerGram(good[i])]
GramsOf(sents, n) == Flat([k \in 1..Len(sents) |-> SentGrams(sents[k], n)])

CountsOf(seq) == [g \in Range(seq) |-> Cardinality({i \in DOMAIN seq : seq[i] = g})]

\* store: order -> (ngram -> count)
StoreOf(sents, last) == [n \in 1..last |-> CountsOf(GramsOf(sents, n))]
\* store of a corpus in which the sentence k occurs times[k] times
WeightedStoreOf(sents, times, last) ==
  LET One == [k \in 1..Len(sents) |-> StoreOf(<<sents[k]>>, last)]
      Count(n, g) == FoldLeft(LAMBDA acc, k : IF g \in DOMAIN One[k][n] THEN acc + times[k] * One[k][n][g] ELSE acc,
                              0, [k \in 1..Len(sents) |-> k])
  IN  [n \in 1..last |-> [g \in UNION {DOMAIN One[k][n] : k \in 1..Len(sents)} |-> Count(n, g)]]
Grams(st, n) == DOMAIN st[n]
SumOf(f) == FoldFunction(LAMBDA a, b : a + b, 0, f)
Total(st, n) == SumOf(st[n])

-----------------------------------------------------------------------------
\* maximum likelihood: relative frequency among the n-grams of the same order
MLE(st, g) == [num |-> S(st[Len(g)][g]), den |-> FromInt(Total(st, Len(g)))]

-----------------------------------------------------------------------------
\* modified Kneser-Ney
NCount(st, n, c) == Cardinality({g \in Grams(st, n) : st[n][g] = c})
Enough(st, last) == \A n \in 2..last : \A c \in 1..4 : NCount(st, n, c) > 0

\* the three discounts of an order, as integer numerators over a common denominator
Discounts(st, n) ==
  LET n1 == NCount(st, n, 1)
      n2 == NCount(st, n, 2)
      n3 == NCount(st, n, 3)
      n4 == NCount(st, n, 4)
      q == n1 + 2 * n2
  IN  [den |-> q * n2 * n3,
       d |-> << n1 * n2 * n3,
                2 * q * n2 * n3 - 3 * n1 * n3 * n3,
                3 * q * n2 * n3 - 4 * n1 * n4 * n2 >>]
AllDiscounts(st, last) == [n \in 2..last |-> Discounts(st, n)]

Disc(ds, n, c) == IF c = 0 THEN 0 ELSE IF c = 1 THEN ds[n].d[1] ELSE IF c = 2 THEN ds[n].d[2] ELSE ds[n].d[3]

\* number of distinct one-word extensions
LeftExt(st, g) == Cardinality({h \in Grams(st, Len(g) + 1) : Tail(h) = g})
\* number of n-grams of order Len(ctx)+2 with that middle
BothExt(st, ctx) == Cardinality({h \in Grams(st, Len(ctx) + 2) : SubSeq(h, 2, Len(h) - 1) = ctx})
\* number of continuations of a context that were seen once, twice, three times or more
Cont(st, ctx, lo, hi) ==
  Cardinality({h \in Grams(st, Len(ctx) + 1) : Front(h) = ctx /\ st[Len(h)][h] >= lo /\ st[Len(h)][h] <= hi})

RECURSIVE PK(_, _, _, _)
\* probability of the last n tokens of the n-gram `full`, interpolated down to unigrams: [num, den]
PK(st, ds, full, n) ==
  LET g == SubSeq(full, Len(full) - n + 1, Len(full))
  IN  IF n = 1 THEN [num |-> S(LeftExt(st, g)), den |-> FromInt(Cardinality(Grams(st, 2)))]
      ELSE LET top == n = Len(full)
               ctx == Front(g)
               c == IF top THEN st[n][g] ELSE LeftExt(st, g)
               base == IF top THEN st[n - 1][ctx] ELSE BothExt(st, ctx)
               m == IF top THEN n ELSE n + 1
               lower == PK(st, ds, full, n - 1)
               w == Cont(st, ctx, 1, 1) * ds[n].d[1] + Cont(st, ctx, 2, 2) * ds[n].d[2]
                    + Cont(st, ctx, 3, 1000000) * ds[n].d[3]
               \* discounted mass over base, denominators m; interpolation weight over base, denominator n
               a == LET v == c * ds[m].den - Disc(ds, m, c) IN IF v < 0 THEN 0 ELSE v
               dA == Mul(FromInt(base), FromInt(ds[m].den))
               dW == Mul(FromInt(base), FromInt(ds[n].den))
               den2 == Mul(dW, lower.den)
               num2 == SMul(S(w), lower.num)
           IN  [num |-> SAdd(SMul(S(a), [neg |-> FALSE, mag |-> den2]), SMul(num2, [neg |-> FALSE, mag |-> dA])),
                den |-> Mul(dA, den2)]
MKN(st, ds, g) == IF Len(g) = 1
                  THEN [num |-> S(LeftExt(st, g)), den |-> FromInt(Cardinality(Grams(st, 2)))]
                  ELSE PK(st, ds, g, Len(g))
=============================================================================
