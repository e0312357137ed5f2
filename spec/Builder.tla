------------------------------ MODULE Builder ------------------------------
(* The language-model files as persistent state.  Build replaces the files *)
(* of orders 1..last by the smoothed n-grams of the corpus (or refuses and *)
(* leaves every file as it was); Load reads the rows at or above a minimal *)
(* count.                                                                  *)
EXTENDS Ngrams

\* expected rows of order n: [g, count, num, den], only positive probabilities
Positive(r) == ~r.num.neg /\ r.num.mag # <<>>
RowsOf(st, method, last, n) ==
  LET ds == IF method = "mkn" THEN AllDiscounts(st, last) ELSE <<>>
      all == {[g |-> g, count |-> st[n][g], pr |-> IF method = "mkn" THEN MKN(st, ds, g) ELSE MLE(st, g)]
              : g \in Grams(st, n)}
  IN  {r \in all : Positive(r.pr)}

Refuses(st, method, last) == method = "mkn" /\ ~Enough(st, last)

\* observed rows (sequence of [g, count, p]) are the expected ones, most probable first
SameRows(obs, rows) ==
  /\ Len(obs) = Cardinality(rows)
  /\ {<<obs[k].g, obs[k].count>> : k \in DOMAIN obs} = {<<r.g, r.count>> : r \in rows}
  /\ \A k \in DOMAIN obs : LET r == CHOOSE r \in rows : r.g = obs[k].g IN Close(obs[k].p, r.pr.num, r.pr.den, 100)
RECURSIVE SumPairs(_)
\* sum of the second components of a set of pairs
SumPairs(P) == IF P = {} THEN 0 ELSE LET x == CHOOSE x \in P : TRUE IN x[2] + SumPairs(P \ {x})

Sorted(obs) == \A k \in 1..(Len(obs) - 1) : Cmp(obs[k].p.mag, obs[k + 1].p.mag) >= 0
=============================================================================
